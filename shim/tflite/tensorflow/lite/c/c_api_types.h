// Stand-in for the part of TensorFlow Lite's C API that ViSQOL uses.
#ifndef VERIF_SHIM_C_API_TYPES_H_
#define VERIF_SHIM_C_API_TYPES_H_
#include <stdint.h>
typedef enum TfLiteStatus {
  kTfLiteOk = 0,
  kTfLiteError = 1,
  kTfLiteDelegateError = 2,
  kTfLiteApplicationError = 3,
  kTfLiteDelegateDataNotFound = 4,
  kTfLiteDelegateDataWriteError = 5,
  kTfLiteDelegateDataReadError = 6,
  kTfLiteUnresolvedOps = 7,
} TfLiteStatus;
typedef enum TfLiteDelegateFlags {
  kTfLiteDelegateFlagsNone = 0,
  kTfLiteDelegateFlagsAllowDynamicTensors = 1,
} TfLiteDelegateFlags;
typedef union TfLitePtrUnion {
  float* f;
  int32_t* i32;
  void* data;
} TfLitePtrUnion;
typedef struct TfLiteTensor {
  TfLitePtrUnion data;
} TfLiteTensor;
typedef struct TfLiteDelegate {
  void* data_;
  int64_t flags;
} TfLiteDelegate;
#endif
