// A small float interpreter for the TFLite flatbuffer graphs of the lattice
// models shipped in /repo/model; stands in for TensorFlow Lite.
#include <cmath>
#include <cstring>
#include <fstream>
#include <set>
#include <sstream>

#include "tensorflow/lite/delegates/xnnpack/xnnpack_delegate.h"
#include "tensorflow/lite/interpreter.h"

namespace tflite_shim {
thread_local std::function<TfLiteStatus(Point, TfLiteStatus)> answer;
thread_local std::function<float(const std::map<std::string, float>&)> predict;
thread_local int live_delegates = 0;
static TfLiteStatus Ans(Point p, TfLiteStatus s) {
  return answer ? answer(p, s) : s;
}
}  // namespace tflite_shim
using tflite_shim::Ans;

namespace tflite {
namespace {
struct Bad {};
struct FB {
  const std::string& b;
  template <class T>
  T rd(size_t o) const {
    if (o + sizeof(T) > b.size()) throw Bad();
    T v;
    memcpy(&v, b.data() + o, sizeof(T));
    return v;
  }
  size_t ind(size_t o) const { return o + rd<uint32_t>(o); }
  size_t fld(size_t t, int i) const {
    const size_t vt = t - rd<int32_t>(t);
    const int n = rd<uint16_t>(vt);
    if (4 + 2 * i >= n) return 0;
    const int v = rd<uint16_t>(vt + 4 + 2 * i);
    return v ? t + v : 0;
  }
  std::pair<size_t, size_t> vec(size_t t, int i) const {
    const size_t f = fld(t, i);
    if (!f) return {0, 0};
    const size_t v = ind(f);
    const size_t n = rd<uint32_t>(v);
    if (n > b.size()) throw Bad();
    return {n, v + 4};
  }
  std::vector<size_t> tabs(size_t t, int i) const {
    auto [n, o] = vec(t, i);
    std::vector<size_t> r;
    for (size_t k = 0; k < n; k++) r.push_back(ind(o + 4 * k));
    return r;
  }
  std::vector<int> ints(size_t t, int i) const {
    auto [n, o] = vec(t, i);
    std::vector<int> r;
    for (size_t k = 0; k < n; k++) r.push_back(rd<int32_t>(o + 4 * k));
    return r;
  }
  std::string str(size_t t, int i) const {
    auto [n, o] = vec(t, i);
    if (o + n > b.size()) throw Bad();
    return b.substr(o, n);
  }
  int i32(size_t t, int i, int d = 0) const {
    const size_t f = fld(t, i);
    return f ? rd<int32_t>(f) : d;
  }
  int i8(size_t t, int i, int d = 0) const {
    const size_t f = fld(t, i);
    return f ? rd<int8_t>(f) : d;
  }
};
struct Tensor {
  std::vector<int> shape;
  int type = 0;  // 0 float32, 2 int32, 6 bool; all held as float (4 bytes)
  std::vector<float> v;
  std::vector<int32_t> iv;
  bool constant = false;
  TfLiteTensor c;
  size_t size() const {
    size_t n = 1;
    for (int d : shape) n *= d;
    return n;
  }
};
struct Op {
  int code, axis = 0, act = 0, parts = 0;
  bool adj_x = false, adj_y = false;
  std::vector<int> in, out;
};
}  // namespace

struct ShimGraph {
  std::vector<Tensor> t;
  std::vector<Op> ops;
  std::map<std::string, std::map<std::string, int>> sig_in, sig_out;

  explicit ShimGraph(const std::string& bytes) {
    FB f{bytes};
    const size_t m = f.ind(0);
    std::vector<int> codes;
    for (size_t c : f.tabs(m, 1)) {
      int k = f.i32(c, 3);
      if (!k) k = f.i8(c, 0);
      codes.push_back(k);
    }
    const auto bufs = f.tabs(m, 4);
    const auto sgs = f.tabs(m, 2);
    if (sgs.size() != 1) throw Bad();
    for (size_t tt : f.tabs(sgs[0], 0)) {
      Tensor x;
      x.shape = f.ints(tt, 0);
      x.type = f.i8(tt, 1);
      const int bi = f.i32(tt, 2);
      auto [n, o] = f.vec(bufs.at(bi), 0);
      if (n) {
        x.constant = true;
        for (size_t k = 0; k < n / 4; k++) {
          if (x.type == 0) x.v.push_back(f.rd<float>(o + 4 * k));
          else if (x.type == 2) x.iv.push_back(f.rd<int32_t>(o + 4 * k));
          else throw Bad();
        }
      }
      t.push_back(x);
    }
    for (size_t o : f.tabs(sgs[0], 3)) {
      Op p;
      p.code = codes.at(f.i32(o, 0));
      p.in = f.ints(o, 1);
      p.out = f.ints(o, 2);
      const size_t of = f.fld(o, 4);
      const size_t opt = of ? f.ind(of) : 0;
      if (opt) switch (p.code) {
          case 2: p.axis = f.i32(opt, 0); p.act = f.i8(opt, 1); break;
          case 49: p.parts = f.i32(opt, 0); break;
          case 9: case 0: case 18: case 41: p.act = f.i8(opt, 0); break;
          case 126: p.adj_x = f.i8(opt, 0); p.adj_y = f.i8(opt, 1); break;
        }
      ops.push_back(p);
    }
    for (size_t sd : f.tabs(m, 7)) {
      const std::string key = f.str(sd, 2);
      for (size_t e : f.tabs(sd, 0)) sig_in[key][f.str(e, 0)] = f.i32(e, 1);
      for (size_t e : f.tabs(sd, 1)) sig_out[key][f.str(e, 0)] = f.i32(e, 1);
    }
  }
  void Alloc() {
    for (Tensor& x : t) {
      if (!x.constant) {
        if (x.type == 2) x.iv.assign(x.size(), 0); else x.v.assign(x.size(), 0.f);
      }
      x.c.data.f = x.v.data();
    }
  }
  static float Act(float v, int a) {
    if (a == 0) return v;
    if (a == 1) return v > 0 ? v : 0;
    throw Bad();
  }
  template <class F>
  void Bin(const Op& p, F fn) {
    const Tensor &a = t[p.in[0]], &b = t[p.in[1]];
    Tensor& o = t[p.out[0]];
    const size_t na = a.v.size(), nb = b.v.size(), n = std::max(na, nb);
    if (a.shape.size() == 3 && a.shape[2] == 1 && b.shape.size() == 3 && b.shape[1] == 1 &&
        na > 1 && nb > 1) {                                 // [1,m,1] x [1,1,k]
      o.v.resize(na * nb);
      for (size_t i = 0; i < na; i++)
        for (size_t j = 0; j < nb; j++) o.v[i * nb + j] = Act(fn(a.v[i], b.v[j]), p.act);
      return;
    }
    o.v.resize(n);
    if ((na != n && na != 1) || (nb != n && nb != 1)) throw Bad();
    for (size_t i = 0; i < n; i++)
      o.v[i] = Act(fn(a.v[na == 1 ? 0 : i], b.v[nb == 1 ? 0 : i]), p.act);
  }
  void Run() {
    for (const Op& p : ops) {
      Tensor& o = t[p.out[0]];
      switch (p.code) {
        case 70: case 22: o.v = t[p.in[0]].v; break;        // EXPAND_DIMS, RESHAPE
        case 53: o.v = t[p.in[0]].v; break;                 // CAST bool->float
        case 71: Bin(p, [](float a, float b) { return a == b ? 1.f : 0.f; }); break;
        case 18: Bin(p, [](float a, float b) { return a * b; }); break;
        case 41: Bin(p, [](float a, float b) { return a - b; }); break;
        case 0: Bin(p, [](float a, float b) { return a + b; }); break;
        case 57: Bin(p, [](float a, float b) { return a < b ? a : b; }); break;
        case 19: o.v.resize(t[p.in[0]].v.size()); for (size_t i = 0; i < o.v.size(); i++) o.v[i] = std::max(0.f, t[p.in[0]].v[i]); break;
        case 101: o.v.resize(t[p.in[0]].v.size()); for (size_t i = 0; i < o.v.size(); i++) o.v[i] = std::fabs(t[p.in[0]].v[i]); break;
        case 77: for (size_t i = 0; i < t[p.in[0]].shape.size(); i++) o.iv[i] = t[p.in[0]].shape[i]; break;
        case 94: for (auto& v : o.v) v = t[p.in[1]].v[0]; break;  // FILL
        case 2: {                                           // CONCATENATION
          o.v.clear();
          for (int i : p.in) for (float v : t[i].v) o.v.push_back(v);
          break;
        }
        case 49: {                                          // SPLIT of [1,n]
          const auto& s = t[p.in[1]].v;
          const size_t w = s.size() / p.out.size();
          for (size_t i = 0; i < p.out.size(); i++)
            t[p.out[i]].v.assign(s.begin() + i * w, s.begin() + (i + 1) * w);
          break;
        }
        case 9: {                                           // FULLY_CONNECTED
          const auto &x = t[p.in[0]].v, &w = t[p.in[1]].v;
          const size_t no = t[p.in[1]].shape[0], ni = t[p.in[1]].shape[1];
          if (x.size() != ni) throw Bad();
          o.v.resize(no);
          for (size_t r = 0; r < no; r++) {
            float s = 0;
            for (size_t c = 0; c < ni; c++) s += x[c] * w[r * ni + c];
            if (p.in.size() > 2 && p.in[2] >= 0) s += t[p.in[2]].v[r];
            o.v[r] = Act(s, p.act);
          }
          break;
        }
        case 126: {                                         // BATCH_MATMUL
          const Tensor &a = t[p.in[0]], &b = t[p.in[1]];
          const size_t M = a.shape[1], K = a.shape[2], N = b.shape[2];
          if (p.adj_x || p.adj_y || (size_t)b.shape[1] != K || a.shape[0] != 1) throw Bad();
          o.v.resize(M * N);
          for (size_t i = 0; i < M; i++)
            for (size_t j = 0; j < N; j++) {
              float s = 0;
              for (size_t k = 0; k < K; k++) s += a.v[i * K + k] * b.v[k * N + j];
              o.v[i * N + j] = s;
            }
          break;
        }
        default: throw Bad();
      }
    }
  }
};

std::unique_ptr<FlatBufferModel> FlatBufferModel::BuildFromFile(const char* fn) {
  std::ifstream f(fn, std::ios::binary);
  std::unique_ptr<FlatBufferModel> m;
  if (f) {
    std::stringstream s;
    s << f.rdbuf();
    const std::string b = s.str();
    if (b.size() >= 8 && b.compare(4, 4, "TFL3") == 0) {
      m.reset(new FlatBufferModel);
      m->bytes_ = b;
    }
  }
  if (Ans(tflite_shim::kBuildFromFile, m ? kTfLiteOk : kTfLiteError) != kTfLiteOk)
    return nullptr;
  return m;
}
InterpreterBuilder::InterpreterBuilder(const FlatBufferModel& m, const OpResolver&) : model_(m) {}
TfLiteStatus InterpreterBuilder::SetNumThreads(int) {
  return Ans(tflite_shim::kSetNumThreads, kTfLiteOk);
}
TfLiteStatus InterpreterBuilder::operator()(std::unique_ptr<Interpreter>* in) {
  in->reset();
  if (Ans(tflite_shim::kBuildInterpreter, kTfLiteOk) != kTfLiteOk) return kTfLiteError;
  try {
    auto g = std::make_unique<ShimGraph>(model_.bytes());
    in->reset(new Interpreter);
    (*in)->g_ = std::move(g);
  } catch (...) {
    return kTfLiteError;
  }
  return kTfLiteOk;
}
Interpreter::Interpreter() : runner_(new SignatureRunner(this)) {}
Interpreter::~Interpreter() {}
TfLiteStatus Interpreter::AllocateTensors() {
  const TfLiteStatus s = Ans(tflite_shim::kAllocateTensors, kTfLiteOk);
  if (s == kTfLiteOk) {
    g_->Alloc();
    // Nothing may be taken for granted about memory just allocated.
    for (auto& [n, i] : g_->sig_in["predict"]) std::fill(g_->t[i].v.begin(), g_->t[i].v.end(), 7.25f);
  }
  return s;
}
TfLiteStatus Interpreter::ModifyGraphWithDelegate(TfLiteDelegate* d) {
  if (!d) return kTfLiteApplicationError;
  return Ans(tflite_shim::kModifyGraph, kTfLiteOk);
}
SignatureRunner* Interpreter::GetSignatureRunner(const char* key) {
  return g_->sig_in.count(key) ? runner_.get() : nullptr;
}
static const char kSig[] = "predict";
TfLiteTensor* SignatureRunner::input_tensor(const char* n) {
  auto& m = in_->g_->sig_in[kSig];
  auto it = m.find(n);
  return it == m.end() ? nullptr : &in_->g_->t[it->second].c;
}
const TfLiteTensor* SignatureRunner::output_tensor(const char* n) const {
  auto& m = in_->g_->sig_out[kSig];
  auto it = m.find(n);
  return it == m.end() ? nullptr : &in_->g_->t[it->second].c;
}
size_t SignatureRunner::input_size() const { return in_->g_->sig_in[kSig].size(); }
TfLiteStatus SignatureRunner::AllocateTensors() { return in_->AllocateTensors(); }
TfLiteStatus SignatureRunner::Invoke() {
  const TfLiteStatus s = Ans(tflite_shim::kInvoke, kTfLiteOk);
  if (s != kTfLiteOk) return s;
  if (tflite_shim::predict) {
    std::map<std::string, float> in;
    for (auto& [n, i] : in_->g_->sig_in[kSig]) in[n] = in_->g_->t[i].v[0];
    in_->g_->t[in_->g_->sig_out[kSig]["predictions"]].v[0] = tflite_shim::predict(in);
    return kTfLiteOk;
  }
  in_->g_->Run();
  return kTfLiteOk;
}
}  // namespace tflite

extern "C" {
TfLiteXNNPackDelegateOptions TfLiteXNNPackDelegateOptionsDefault() { return {0, 0}; }
TfLiteDelegate* TfLiteXNNPackDelegateCreate(const TfLiteXNNPackDelegateOptions*) {
  tflite_shim::live_delegates++;
  return new TfLiteDelegate{nullptr, 0};
}
void TfLiteXNNPackDelegateDelete(TfLiteDelegate* d) {
  tflite_shim::live_delegates--;
  delete d;
}
}
