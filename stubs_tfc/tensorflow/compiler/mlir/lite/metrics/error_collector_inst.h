// Dependency stand-in.
#ifndef STUB_TFL_METRICS_H_
#define STUB_TFL_METRICS_H_
#include "mlir/IR/Diagnostics.h"
#include "mlir/IR/MLIRContext.h"
#include "mlir/Pass/PassInstrumentation.h"
namespace tflite { namespace metrics { struct ConverterErrorData { enum ErrorCode { UNKNOWN = 0, ERROR_UNSUPPORTED_CONTROL_FLOW_V1 = 6 }; }; } }
namespace mlir { namespace TFL {
class ErrorCollectorInstrumentation : public PassInstrumentation { public: explicit ErrorCollectorInstrumentation(MLIRContext*) {} };
inline InFlightDiagnostic AttachErrorCode(InFlightDiagnostic&& d, tflite::metrics::ConverterErrorData::ErrorCode) { return std::move(d); }
} }
#endif
