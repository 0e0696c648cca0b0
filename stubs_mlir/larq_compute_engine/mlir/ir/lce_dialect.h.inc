// Stand-in for mlir-tblgen output (dialect declaration of lce_ops.td).
#include "llvm/ADT/StringSwitch.h"
#include "mlir/IR/Builders.h"
#include "mlir/IR/BuiltinAttributes.h"
#include "mlir/IR/BuiltinTypes.h"
#include "mlir/IR/Dialect.h"
#include "mlir/IR/OpDefinition.h"
namespace mlir { namespace lq {
class LarqDialect : public ::mlir::Dialect {
 public:
  explicit LarqDialect(::mlir::MLIRContext* context) : ::mlir::Dialect(getDialectNamespace(), context, ::mlir::TypeID::get<LarqDialect>()) { initialize(); }
  void initialize();
  static constexpr ::llvm::StringLiteral getDialectNamespace() { return ::llvm::StringLiteral("lq"); }
  ::mlir::Operation* materializeConstant(::mlir::OpBuilder& builder, ::mlir::Attribute value, ::mlir::Type type, ::mlir::Location loc) override;
};
}}
