// Stand-in for pffft (https://bitbucket.org/jpommier/pffft), which is not
// installed in the sandbox.  Same API and same documented contract; results
// are those of the mathematical DFT.  Written for this verification framework.
#ifndef VERIF_SHIM_PFFFT_H_
#define VERIF_SHIM_PFFFT_H_
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct PFFFT_Setup PFFFT_Setup;
typedef enum { PFFFT_FORWARD, PFFFT_BACKWARD } pffft_direction_t;
typedef enum { PFFFT_REAL, PFFFT_COMPLEX } pffft_transform_t;
PFFFT_Setup* pffft_new_setup(int N, pffft_transform_t transform);
void pffft_destroy_setup(PFFFT_Setup*);
void pffft_transform(PFFFT_Setup* setup, const float* input, float* output,
                     float* work, pffft_direction_t direction);
void pffft_transform_ordered(PFFFT_Setup* setup, const float* input,
                             float* output, float* work,
                             pffft_direction_t direction);
void pffft_zreorder(PFFFT_Setup* setup, const float* input, float* output,
                    pffft_direction_t direction);
void* pffft_aligned_malloc(size_t nb_bytes);
void pffft_aligned_free(void*);
int pffft_simd_size();
#ifdef __cplusplus
}
#endif
#endif
