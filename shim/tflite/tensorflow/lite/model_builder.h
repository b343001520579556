#ifndef VERIF_SHIM_MODEL_BUILDER_H_
#define VERIF_SHIM_MODEL_BUILDER_H_
#include <functional>
#include <memory>
#include <string>
#include <vector>
#include "tensorflow/lite/c/c_api_types.h"
namespace tflite {
class FlatBufferModel {
 public:
  static std::unique_ptr<FlatBufferModel> BuildFromFile(const char* filename);
  const std::string& bytes() const { return bytes_; }
 private:
  std::string bytes_;
};
}  // namespace tflite
#endif
