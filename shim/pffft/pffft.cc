// See pffft.h.  Real transforms of N points, N a power of two >= 32.
// Ordered layout: [X0.re, X(N/2).re, X1.re, X1.im, X2.re, X2.im, ...].
// Unordered ("z") layout: any bijection of it; ours interleaves blocks so that
// code that forgets a reorder computes garbage, as with the real library.
#include "pffft.h"

#include <cmath>
#include <complex>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <memory>
#include <vector>

typedef std::complex<double> C;
struct PFFFT_Setup {
  int n;
  std::shared_ptr<std::vector<C>> tw;  // exp(-2 pi i k / n)
};

static void Die(const char* what) {
  fprintf(stderr, "pffft shim: contract violated: %s\n", what);
  abort();
}

static std::shared_ptr<std::vector<C>> Twiddles(int n) {
  static thread_local std::map<int, std::shared_ptr<std::vector<C>>> cache;
  auto& p = cache[n];
  if (!p) {
    p = std::make_shared<std::vector<C>>(n / 2);
    for (int k = 0; k < n / 2; k++)
      (*p)[k] = C(std::cos(2 * M_PI * k / n), -std::sin(2 * M_PI * k / n));
  }
  return p;
}

extern "C" {
PFFFT_Setup* pffft_new_setup(int n, pffft_transform_t t) {
  if (t != PFFFT_REAL || n < 32 || (n & (n - 1))) return nullptr;
  PFFFT_Setup* s = new PFFFT_Setup;
  s->n = n;
  s->tw = Twiddles(n);
  return s;
}
void pffft_destroy_setup(PFFFT_Setup* s) { delete s; }
int pffft_simd_size() { return 4; }
void* pffft_aligned_malloc(size_t n) {
  void* p = nullptr;
  if (posix_memalign(&p, 64, n ? n : 64)) return nullptr;
  return p;
}
void pffft_aligned_free(void* p) { free(p); }
}

// In-place radix-2 FFT of m points, using every (n/m)-th twiddle.
static void Fft(std::vector<C>& a, const std::vector<C>& tw, int n, bool inv) {
  const int m = a.size();
  for (int i = 1, j = 0; i < m; i++) {
    int bit = m >> 1;
    for (; j & bit; bit >>= 1) j ^= bit;
    j ^= bit;
    if (i < j) std::swap(a[i], a[j]);
  }
  for (int len = 2; len <= m; len <<= 1) {
    const int step = n / len;
    for (int i = 0; i < m; i += len)
      for (int k = 0; k < len / 2; k++) {
        C w = tw[k * step];
        if (inv) w = std::conj(w);
        const C u = a[i + k], x = a[i + k + len / 2];
        const C v(x.real() * w.real() - x.imag() * w.imag(),
                  x.real() * w.imag() + x.imag() * w.real());
        a[i + k] = u + v;
        a[i + k + len / 2] = u - v;
      }
  }
}

static void CheckPtrs(PFFFT_Setup* s, const float* in, const float* out) {
  if (!s) Die("null setup");
  if (((size_t)in & 15) || ((size_t)out & 15)) Die("unaligned buffer");
}

// z layout: complex slot c (0..n/2-1) holding floats (2c,2c+1) goes to block
// c/4 as 4 reals followed by 4 imaginaries.
static inline int ZRe(int c) { return (c / 4) * 8 + (c % 4); }
static inline int ZIm(int c) { return (c / 4) * 8 + 4 + (c % 4); }

static void Forward(PFFFT_Setup* s, const float* in, float* out) {
  const int n = s->n, h = n / 2;
  const std::vector<C>& tw = *s->tw;
  std::vector<C> a(h);
  for (int i = 0; i < h; i++) a[i] = C(in[2 * i], in[2 * i + 1]);
  Fft(a, tw, n, false);
  std::vector<float> r(n);
  r[0] = a[0].real() + a[0].imag();
  r[1] = a[0].real() - a[0].imag();
  for (int k = 1; k < h; k++) {
    const C x = a[k], y = std::conj(a[h - k]);
    const C e = (x + y) * 0.5, o = (x - y) * C(0, -0.5);
    const C w = tw[k];
    r[2 * k] = e.real() + o.real() * w.real() - o.imag() * w.imag();
    r[2 * k + 1] = e.imag() + o.real() * w.imag() + o.imag() * w.real();
  }
  for (int i = 0; i < n; i++) out[i] = r[i];
}

static void Backward(PFFFT_Setup* s, const float* in, float* out) {
  // Unscaled: backward(forward(x)) == n * x.
  const int n = s->n, h = n / 2;
  const std::vector<C>& tw = *s->tw;
  std::vector<C> a(h);
  auto X = [&](int k) {
    return k == h ? C(in[1], 0) : k == 0 ? C(in[0], 0) : C(in[2 * k], in[2 * k + 1]);
  };
  for (int k = 0; k < h; k++) {
    const C x = X(k), y = std::conj(X(h - k));
    const C e = x + y, d = x - y;
    const C w = std::conj(tw[k]);
    const C o(d.real() * w.real() - d.imag() * w.imag(),
              d.real() * w.imag() + d.imag() * w.real());
    a[k] = e + C(-o.imag(), o.real());
  }
  Fft(a, tw, n, true);
  for (int i = 0; i < h; i++) {
    out[2 * i] = a[i].real();
    out[2 * i + 1] = a[i].imag();
  }
}

extern "C" {
void pffft_zreorder(PFFFT_Setup* s, const float* in, float* out,
                    pffft_direction_t d) {
  CheckPtrs(s, in, out);
  if (in == out) Die("zreorder needs distinct buffers");
  for (int c = 0; c < s->n / 2; c++) {
    if (d == PFFFT_FORWARD) {
      out[2 * c] = in[ZRe(c)];
      out[2 * c + 1] = in[ZIm(c)];
    } else {
      out[ZRe(c)] = in[2 * c];
      out[ZIm(c)] = in[2 * c + 1];
    }
  }
}
void pffft_transform_ordered(PFFFT_Setup* s, const float* in, float* out,
                             float* work, pffft_direction_t d) {
  CheckPtrs(s, in, out);
  if (work) {  // the library may scribble over its workspace
    work[0] = 0;
    work[s->n - 1] = 0;
  }
  if (d == PFFFT_FORWARD) Forward(s, in, out); else Backward(s, in, out);
}
void pffft_transform(PFFFT_Setup* s, const float* in, float* out, float* work,
                     pffft_direction_t d) {
  CheckPtrs(s, in, out);
  float* t = (float*)pffft_aligned_malloc(sizeof(float) * s->n);
  if (d == PFFFT_FORWARD) {
    pffft_transform_ordered(s, in, t, work, d);
    pffft_zreorder(s, t, out, PFFFT_BACKWARD);
  } else {
    pffft_zreorder(s, in, t, PFFFT_FORWARD);
    pffft_transform_ordered(s, t, out, work, d);
  }
  pffft_aligned_free(t);
}
}
