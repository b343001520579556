#ifndef VERIF_SHIM_REGISTER_H_
#define VERIF_SHIM_REGISTER_H_
namespace tflite {
class OpResolver {};
namespace ops {
namespace builtin {
class BuiltinOpResolver : public OpResolver {};
}  // namespace builtin
}  // namespace ops
}  // namespace tflite
#endif
