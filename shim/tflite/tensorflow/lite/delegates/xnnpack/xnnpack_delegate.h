#ifndef VERIF_SHIM_XNNPACK_DELEGATE_H_
#define VERIF_SHIM_XNNPACK_DELEGATE_H_
#include "tensorflow/lite/c/c_api_types.h"
#define TFLITE_XNNPACK_DELEGATE_FLAG_QS8 0x00000001
#define TFLITE_XNNPACK_DELEGATE_FLAG_QU8 0x00000002
#ifdef __cplusplus
extern "C" {
#endif
typedef struct {
  int32_t num_threads;
  uint32_t flags;
} TfLiteXNNPackDelegateOptions;
TfLiteXNNPackDelegateOptions TfLiteXNNPackDelegateOptionsDefault();
TfLiteDelegate* TfLiteXNNPackDelegateCreate(
    const TfLiteXNNPackDelegateOptions* options);
void TfLiteXNNPackDelegateDelete(TfLiteDelegate* delegate);
#ifdef __cplusplus
}
#endif
#endif
