// Dependency stand-in.
#include <string>
#include <vector>
namespace mlir { namespace TFL { std::vector<std::string> AllTfFakeQuantOps(); } }
