// variant: fast asan
// Training data files and models trained from them.
#include <malloc.h>

#include "checks/common.h"

#include "libsvm_target_observation_convertor.h"
#include "misc_vector.h"
#include "support_vector_regression_model.h"
#include "svm.h"
#include "training_data_file_reader.h"

using namespace vt;

namespace {
typedef std::vector<std::vector<double>> Rows;
using Visqol::FilePath;
using Visqol::SupportVectorRegressionModel;
using Visqol::TrainingDataFileReader;

void Put(const std::string& path, const std::string& text) {
  FILE* f = fopen(path.c_str(), "wb");
  fwrite(text.data(), 1, text.size(), f);
  fclose(f);
}
std::string Show(const Rows& r) {
  std::ostringstream s;
  s.precision(17);
  for (auto& row : r) {
    s << "[";
    for (double v : row) s << v << " ";
    s << "]";
  }
  return s.str();
}
// The items of a row, with the number each stands for.
struct Item { std::string text; bool number; double value; };
const std::vector<Item>& Items() {
  static const std::vector<Item> v = {
      {"0.997688956727337", true, 0.997688956727337}, {"-3", true, -3}, {"", false, 0}, {"abc", false, 0}, {"1e-5", true, 1e-5}, {"0", true, 0},
      {"4.778303", true, 4.778303}, {" 2.5", true, 2.5}, {"1.2.3", false, 0}, {"+7", true, 7}, {"1.7976931348623157e308", true, 1.7976931348623157e308}, {"5 ", true, 5},
      {"0x", false, 0}, {"-", false, 0}, {"12345678901234567890", true, 12345678901234567890.0}, {"4.9406564584124654e-324", true, 4.9406564584124654e-324}};
  return v;
}
bool Same(const Rows& a, const Rows& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++) {
    if (a[i].size() != b[i].size()) return false;
    for (size_t k = 0; k < a[i].size(); k++)
      if (memcmp(&a[i][k], &b[i][k], 8) && !(a[i][k] == 0 && b[i][k] == 0)) return false;
  }
  return true;
}
void JudgeFile(mc::Ctx& c, const std::string& text, char delimiter, const Rows& want, const char* what) {
  const std::string path = c.scratch() + "/data.txt";
  Put(path, text);
  const Rows got = TrainingDataFileReader::Read(FilePath(path), delimiter);
  c.check(Same(got, want), "rows", "%s: %s, expected %s", what, Show(got).c_str(), Show(want).c_str());
}

// --- models --------------------------------------------------------------------
struct Data {
  Rows x;
  std::vector<double> y;
};
Data MakeData(int kind, int n, int features) {
  Data d;
  Lcg g(kind * 131 + n * 7 + features);
  for (int i = 0; i < n; i++) {
    std::vector<double> row;
    double s = 0;
    for (int k = 0; k < features; k++) {
      const double v = kind == 2 ? (i * 7 + k * 3) % 5 / 4.0 : g.uni();
      row.push_back(v);
      s += v * (k % 3 + 1);
    }
    d.x.push_back(row);
    d.y.push_back(kind == 1 ? 3 : 1 + 4 * s / (2.0 * features) + (kind == 0 ? 0.1 * g.sym() : 0));
  }
  return d;
}
// What the library gives for the documented parameters, on data of our own.
struct Trained {
  std::vector<std::vector<svm_node>> nodes;
  std::vector<svm_node*> rows;
  std::vector<double> y;
  svm_problem problem{};
  svm_parameter p{};
  svm_model* model = nullptr;
  static std::vector<svm_node> Nodes(const std::vector<double>& x) {
    std::vector<svm_node> v;
    for (size_t k = 0; k < x.size(); k++) v.push_back({int(k) + 1, x[k]});
    v.push_back({-1, 0});
    return v;
  }
  explicit Trained(const Data& d) : y(d.y) {
    for (auto& x : d.x) nodes.push_back(Nodes(x));
    for (auto& v : nodes) rows.push_back(v.data());
    problem.l = y.size();
    problem.y = y.data();
    problem.x = rows.data();
    p.svm_type = NU_SVR;
    p.kernel_type = RBF;
    p.gamma = 1.0 / d.x[0].size();
    p.C = 0.4;
    p.nu = 0.6;
    p.eps = 1e-3;
    p.cache_size = 100;
    p.shrinking = 1;
    p.degree = 3;
    p.p = 0.1;
    model = svm_train(&problem, &p);
  }
  ~Trained() { svm_free_and_destroy_model(&model); }
  double Predict(const std::vector<double>& x) const {
    auto v = Nodes(x);
    return svm_predict(model, v.data());
  }
};
std::vector<std::vector<double>> Questions(const Data& d) {
  auto q = d.x;
  q.resize(std::min<size_t>(q.size(), 5));
  const size_t n = d.x[0].size();
  for (double v : {0.0, 1.0, 0.5, -0.3}) q.push_back(std::vector<double>(n, v));
  for (size_t k = 0; k < n; k++) {
    q.push_back(std::vector<double>(n, 0.6));
    q.back()[k] = 0.1;
  }
  return q;
}
void Train(SupportVectorRegressionModel* m, const Data& d) {
  // The data is gone when the model is used.
  auto copy = std::make_unique<Data>(d);
  m->Init(copy->x, copy->y);
  for (auto& r : copy->x)
    for (double& v : r) v = -77;
  for (double& v : copy->y) v = -77;
}
}  // namespace

// Every row of a few items.
SCENARIO(rows) {
  const int n = 1 + c.choose("items", c.tier(3, 4));
  const char d = c.pick("delimiter", std::vector<char>{',', ';', '\t'});
  const bool end = c.flag("newline at the end");
  std::string text;
  Rows want(1);
  for (int i = 0; i < n; i++) {
    const Item& it = c.pick("item", Items());
    if (d == '\t' && it.text.find('\t') != std::string::npos) c.skip();
    text += (i ? std::string(1, d) : "") + it.text;
    if (it.number) want[0].push_back(it.value);
  }
  if (text.empty() && !end) want.clear();
  JudgeFile(c, text + (end ? "\n" : ""), d, want, "one row");
}

// Every file of a few rows.
SCENARIO(files) {
  static const std::vector<std::pair<std::string, std::vector<double>>> kRows = {
      {"", {}}, {"4.5", {4.5}}, {"0.1,0.2,0.3", {0.1, 0.2, 0.3}}, {"x,2", {2}}, {"bad", {}}, {"1,", {1}}, {",1", {1}}, {"9 8,7", {7}}};
  const int n = c.choose("rows", c.tier(5, 6));
  const bool end = c.flag("newline at the end");
  std::string text;
  Rows want;
  for (int i = 0; i < n; i++) {
    const auto& r = c.pick("row", kRows);
    text += r.first + (i + 1 < n || end ? "\n" : "");
    if (i + 1 == n && !end && r.first.empty()) continue;
    want.push_back(r.second);
  }
  JudgeFile(c, text, ',', want, "rows");
}

// Numbers of every length, and every row and column count.
SCENARIO(sizes) {
  const int rows = c.pick("rows", std::vector<int>{0, 1, 2, 10, 257, 2000}), cols = 1 + c.choose("columns", 40);
  const int digits = c.pick("digits", std::vector<int>{1, 6, 15, 17});
  std::string text;
  Rows want;
  Lcg g(rows + cols);
  for (int i = 0; i < rows; i++) {
    want.emplace_back();
    for (int k = 0; k < cols; k++) {
      char b[60];
      snprintf(b, sizeof b, "%.*g", digits, g.sym() * pow(10, (i + k) % 9 - 4));
      text += (k ? "," : "") + std::string(b);
      want.back().push_back(strtod(b, nullptr));
    }
    text += "\n";
  }
  JudgeFile(c, text, ',', want, "table");
  if (rows > 0) {
    std::vector<double> first;
    for (auto& r : want) first.push_back(r[0]);
    c.check(Visqol::MiscVector::ConvertVecOfVecToVec(want) == first, "targets", "the targets are not the first numbers of the rows");
  }
}

// No file, an empty file, a directory.
SCENARIO(no_file) {
  const int kind = c.choose("file", 3);
  const std::string path = c.scratch() + "/none";
  if (kind == 1) Put(path, "");
  const Rows got = TrainingDataFileReader::Read(FilePath(kind == 2 ? c.scratch() : path), ',');
  c.check(got.empty(), "rows", "%zu rows from nothing", got.size());
}

// The conversion keeps every number at its place.
SCENARIO(conversion) {
  const int n = c.choose("observations", c.tier(12, 40)), wide[] = {63, 64, 65, 127, 128, 129, 300};
  const int few = c.tier(40, 90), f = c.choose("features", few + 7), features = f < few ? f : wide[f - few];
  const Data d = MakeData(0, n, features);
  const Visqol::LibSvmTargetObservationConvertor conv;
  svm_node** all = conv.ConvertObservations(d.x, features);
  auto judge = [&](const svm_node* v, const std::vector<double>& x) {
    for (int k = 0; k < features; k++) c.check(v[k].index == k + 1 && v[k].value == x[k], "conversion", "feature %d of %d is %d:%g", k, features, v[k].index, v[k].value);
    c.check(v[features].index == -1, "conversion", "%d features do not end", features);
  };
  for (int i = 0; i < n; i++) {
    judge(all[i], d.x[i]);
    svm_node* one = conv.ConvertObservation(d.x[i]);
    judge(one, d.x[i]);
    free(one);
    free(all[i]);
  }
  free(all);
}

// A trained model predicts what nu-regression with the documented parameters does.
SCENARIO_T(training, 60) {
  const int kind = c.choose("data", 3);
  static const std::vector<int> some = {64, 100, 129, 300, 1025};
  const int less = c.tier(24, 60), o = c.choose("observations", less + 5), n = o < less ? 2 + o : some[o - less];
  const int features = c.pick("features", std::vector<int>{1, 2, 3, 7, 21, 32, 33, 65, 130});
  const Data d = MakeData(kind, n, features);
  SupportVectorRegressionModel m;
  Train(&m, d);
  const Trained want(d);
  for (auto& q : Questions(d)) {
    const auto before = q;
    const double a = m.Predict(q), b = want.Predict(q);
    c.check(fabs(a - b) <= 1e-9 * (1 + fabs(b)), "prediction", "%d observations of %d features: %.15g, expected %.15g", n, features, a, b);
    c.check(q == before && m.Predict(q) == a, "prediction-changes", "a second prediction differs");
    c.outcome(a);
  }
  if (kind == 1) c.check(fabs(m.Predict(d.x[0]) - 3) < 0.05, "constant", "all targets are 3, the prediction is %g", m.Predict(d.x[0]));
}

// Models do not depend on each other, whatever the order of their lives.
SCENARIO(lives) {
  const int depth = c.tier(5, 7);
  std::unique_ptr<SupportVectorRegressionModel> m[2];
  int state[2] = {-1, -1};
  static const std::vector<Data> kData = {MakeData(0, 20, 3), MakeData(2, 15, 3)};
  static const Trained kWant[2] = {Trained(kData[0]), Trained(kData[1])};
  const std::vector<double> q = {0.2, 0.7, 0.4};
  const double shipped = [] {
    SupportVectorRegressionModel s;
    if (!s.Init(FilePath(SvrModel())).ok()) abort();
    return s.Predict(std::vector<double>(32, 0.9));
  }();
  for (int i = 0; i < depth; i++) {
    // 0,1: train with the first or second data; 2: read the shipped model; 3: end.
    const int op = c.choose("operation", 8), who = op / 4, what = op % 4;
    if ((what == 3) != (m[who] != nullptr)) c.skip();
    if (what == 3) {
      m[who].reset();
      state[who] = -1;
    } else {
      m[who] = std::make_unique<SupportVectorRegressionModel>();
      if (what == 2) {
        c.check(m[who]->Init(FilePath(SvrModel())).ok(), "model", "the shipped model is refused");
      } else {
        Train(m[who].get(), kData[what]);
      }
      state[who] = what;
    }
    for (int k = 0; k < 2; k++) {
      if (!m[k]) continue;
      const double got = state[k] == 2 ? m[k]->Predict(std::vector<double>(32, 0.9)) : m[k]->Predict(q);
      const double want = state[k] == 2 ? shipped : kWant[state[k]].Predict(q);
      c.check(fabs(got - want) < 1e-12, "others", "a prediction of %.15g became %.15g after models were made and ended", want, got);
    }
  }
}

// An ended model leaves no memory behind.
SCENARIO(memory) {
  const int what = c.choose("model", 3), n = c.pick("observations", std::vector<int>{5, 40});
  const Data d = MakeData(0, n, 4);
  // What the allocator keeps for itself settles after some rounds; what is
  // left behind adds up.
  auto rounds = [&](int k) {
    for (int i = 0; i < k; i++) {
      SupportVectorRegressionModel m;
      if (what == 2) {
        c.check(m.Init(FilePath(SvrModel())).ok(), "model", "the shipped model is refused");
      } else {
        m.Init(d.x, d.y);
      }
      if (what == 1) m.Predict({1, 2, 3, 4});
    }
    return static_cast<ssize_t>(mallinfo2().uordblks);
  };
  const int k = 64;
  const ssize_t a = rounds(16), b = rounds(k), e = rounds(k);
  c.check(b - a < 16 * k || e - b < 16 * k, "leak", "each model leaves %zd bytes behind", (e - b) / k);
}

// The files shipped for training: every row, and the model they give.
SCENARIO_T(shipped, 100) {
  const int part = c.choose("part", 8);
  const std::string dir = Repo() + "/testdata/svr_training/training_mat_tcdaudio14_aacvopus15_";
  auto independent = [](const std::string& path) {
    std::ifstream f(path);
    std::string line, w;
    Rows r;
    while (getline(f, line)) {
      r.emplace_back();
      size_t at = 0;
      while (at < line.size()) {
        char* e;
        const double v = strtod(line.c_str() + at, &e);
        r.back().push_back(v);
        at = e - line.c_str() + 1;
      }
    }
    return r;
  };
  const Rows x = TrainingDataFileReader::Read(FilePath(dir + "fvnsims.txt"), ','), y = TrainingDataFileReader::Read(FilePath(dir + "moslqs.txt"), ',');
  c.check(Same(x, independent(dir + "fvnsims.txt")) && Same(y, independent(dir + "moslqs.txt")), "rows", "the shipped files are read wrongly");
  c.check(x.size() == y.size() && x.size() > 100 && x[0].size() == 32, "rows", "%zu rows and %zu targets", x.size(), y.size());
  Data d{x, Visqol::MiscVector::ConvertVecOfVecToVec(y)};
  // Parts of it, in another order, still give what the library gives.
  if (part) {
    Data e;
    for (size_t i = part; i < d.x.size(); i += part) e.x.push_back(d.x[i]), e.y.push_back(d.y[i]);
    d = e;
  }
  SupportVectorRegressionModel m;
  Train(&m, d);
  const Trained want(d);
  for (size_t i = 0; i < x.size(); i += c.tier(7, 1)) {
    const double a = m.Predict(x[i]), b = want.Predict(x[i]);
    c.check(fabs(a - b) < 1e-9, "prediction", "row %zu: %.15g, expected %.15g", i, a, b);
  }
}

// A model file that cannot be read is an error, again and again.
SCENARIO(model_file) {
  const int depth = c.tier(3, 4);
  SupportVectorRegressionModel good;
  c.check(good.Init(FilePath(SvrModel())).ok(), "model", "the shipped model is refused");
  const std::vector<double> q(32, 0.8);
  const double want = good.Predict(q);
  for (int i = 0; i < depth; i++) {
    const int kind = c.choose("file", 4);
    const std::string path = c.scratch() + "/m" + std::to_string(i);
    if (kind == 1) Put(path, "not a model\n");
    if (kind == 2) Put(path, "svm_type nu_svr\nkernel_type nonsense\n");
    SupportVectorRegressionModel m;
    const bool ok = m.Init(FilePath(kind == 3 ? SvrModel() : path)).ok();
    c.check(ok == (kind == 3), "model", "model file %d: %s", kind, ok ? "accepted" : "refused");
    if (ok) c.check(m.Predict(q) == want, "prediction", "the shipped model predicts %.15g, then %.15g", want, m.Predict(q));
    c.check(good.Predict(q) == want, "others", "a model changed when another was read");
  }
}
