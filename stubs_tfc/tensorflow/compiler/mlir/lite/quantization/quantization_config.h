// Dependency stand-in: mlir::quant::QuantizationSpecs (the parts the converter uses).
#ifndef STUB_TF_QUANT_CONFIG_H_
#define STUB_TF_QUANT_CONFIG_H_
#include <optional>
#include <utility>
#include <vector>
namespace tensorflow { enum DataType { DT_FLOAT = 1, DT_QINT8 = 11, DT_QUINT8 = 12, DT_QINT32 = 13, DT_QINT16 = 15, DT_QUINT16 = 16, DT_HALF = 19, DT_INT8 = 6, DT_UINT8 = 4 }; }
namespace mlir { namespace quant {
enum class QDQConversionMode { kQDQNone, kQDQStatic, kQDQDynamic };
struct QuantizationSpecs {
  tensorflow::DataType inference_type = tensorflow::DT_FLOAT;
  tensorflow::DataType inference_input_type = tensorflow::DT_FLOAT;
  std::vector<std::pair<std::optional<double>, std::optional<double>>> input_ranges;
  std::pair<std::optional<double>, std::optional<double>> default_ranges;
  bool post_training_quantization = false;
  bool weight_quantization = false;
  QDQConversionMode qdq_conversion_mode = QDQConversionMode::kQDQNone;
  bool IsSignedInferenceType() const { return inference_type != tensorflow::DT_QUINT8 && inference_type != tensorflow::DT_QUINT16 && inference_type != tensorflow::DT_UINT8; }
  bool RunPropagationAndRewriteQuantizationPasses() const { return inference_type != tensorflow::DT_FLOAT && !weight_quantization; }
};
} }
#endif
