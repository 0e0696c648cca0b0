// Dependency stand-in.
#include <string>
#include <vector>
namespace mlir { namespace odml { std::vector<std::string> GetAcceptedTFLiteDialects(); } }
