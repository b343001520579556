#ifndef VERIF_SHIM_INTERPRETER_H_
#define VERIF_SHIM_INTERPRETER_H_
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "tensorflow/lite/c/c_api_types.h"
#include "tensorflow/lite/kernels/register.h"
#include "tensorflow/lite/model_builder.h"
namespace tflite {
struct ShimGraph;
class Interpreter;
class SignatureRunner {
 public:
  TfLiteTensor* input_tensor(const char* name);
  const TfLiteTensor* output_tensor(const char* name) const;
  TfLiteStatus AllocateTensors();
  TfLiteStatus Invoke();
  size_t input_size() const;
 private:
  friend class Interpreter;
  explicit SignatureRunner(Interpreter* i) : in_(i) {}
  Interpreter* in_;
};
class Interpreter {
 public:
  Interpreter();
  ~Interpreter();
  TfLiteStatus AllocateTensors();
  TfLiteStatus ModifyGraphWithDelegate(TfLiteDelegate* delegate);
  SignatureRunner* GetSignatureRunner(const char* key);
 private:
  friend class InterpreterBuilder;
  friend class SignatureRunner;
  std::unique_ptr<ShimGraph> g_;
  std::unique_ptr<SignatureRunner> runner_;
};
class InterpreterBuilder {
 public:
  InterpreterBuilder(const FlatBufferModel& model, const OpResolver& resolver);
  TfLiteStatus operator()(std::unique_ptr<Interpreter>* interpreter);
  TfLiteStatus SetNumThreads(int num_threads);
 private:
  const FlatBufferModel& model_;
};
}  // namespace tflite
// Environment control for the explorer (not part of TensorFlow Lite).
namespace tflite_shim {
enum Point {
  kBuildFromFile, kSetNumThreads, kBuildInterpreter, kAllocateTensors,
  kModifyGraph, kInvoke
};
// Called, when set, for the result of each of the points above with the status
// the stand-in would return; its answer is returned instead.
extern thread_local std::function<TfLiteStatus(Point, TfLiteStatus)> answer;
// Called, when set, in place of the graph's evaluation.
extern thread_local std::function<float(const std::map<std::string, float>&)> predict;
extern thread_local int live_delegates;
}  // namespace tflite_shim
#endif
