// variant: fast asan
// Matrices and complex arrays: every operation against the textbook, in every order.
#include <complex>

#include "checks/common.h"

#include "amatrix.h"
#include "complex_valarray.h"
#include "convolution_2d.h"
#include "misc_math.h"
#include "misc_vector.h"

using namespace vt;

namespace {
using Visqol::AMatrix;
using Visqol::kDimension;
typedef AMatrix<double> M;

// A matrix as rows of numbers.
struct T {
  int rows = 0, cols = 0;
  std::vector<double> v;  // row by row
  T() {}
  T(int r, int k, double x = 0) : rows(r), cols(k), v(r * k, x) {}
  double& at(int r, int k) { return v[r * cols + k]; }
  double at(int r, int k) const { return v[r * cols + k]; }
};
T Table(int rows, int cols, int seed) {
  T t(rows, cols);
  for (int r = 0; r < rows; r++)
    for (int k = 0; k < cols; k++) t.at(r, k) = ((r * 5 + k * 3 + seed * 7) % 11 - 5) * 0.75 + (r == k ? 0.125 : 0);
  return t;
}
std::vector<double> ByColumns(const T& t) {
  std::vector<double> v;
  for (int k = 0; k < t.cols; k++)
    for (int r = 0; r < t.rows; r++) v.push_back(t.at(r, k));
  return v;
}
M Real(const T& t) {
  const auto v = ByColumns(t);
  return M(t.rows, t.cols, v);
}
T Map(const T& a, const T& b, double (*f)(double, double)) {
  T r(a.rows, a.cols);
  for (size_t i = 0; i < a.v.size(); i++) r.v[i] = f(a.v[i], b.v[i]);
  return r;
}
T Sub(const T& a, int r0, int r1, int k0, int k1) {
  T t(r1 - r0 + 1, k1 - k0 + 1);
  for (int r = r0; r <= r1; r++)
    for (int k = k0; k <= k1; k++) t.at(r - r0, k - k0) = a.at(r, k);
  return t;
}
T Flip(const T& a) {
  T t(a.rows, a.cols);
  for (int r = 0; r < a.rows; r++)
    for (int k = 0; k < a.cols; k++) t.at(r, k) = a.at(a.rows - 1 - r, k);
  return t;
}
T Turn(const T& a) {
  T t(a.cols, a.rows);
  for (int r = 0; r < a.rows; r++)
    for (int k = 0; k < a.cols; k++) t.at(k, r) = a.at(r, k);
  return t;
}
T Stat(const T& a, int dim, bool deviation) {
  T t(dim == 0 ? 1 : a.rows, dim == 0 ? a.cols : 1);
  for (size_t i = 0; i < t.v.size(); i++) {
    const int n = dim == 0 ? a.rows : a.cols;
    long double s = 0, q = 0;
    for (int j = 0; j < n; j++) s += dim == 0 ? a.at(j, i) : a.at(i, j);
    s /= n;
    for (int j = 0; j < n; j++) {
      const long double x = (dim == 0 ? a.at(j, i) : a.at(i, j)) - s;
      q += x * x;
    }
    t.v[i] = deviation ? (n > 1 ? sqrtl(q / (n - 1)) : 0) : s;
  }
  return t;
}
bool Close(double a, double b) { return a == b || fabs(a - b) <= 1e-12 * (1 + fabs(a) + fabs(b)) || (std::isnan(a) && std::isnan(b)); }

// Every way of looking at a matrix.
void Judge(mc::Ctx& c, const M& m, const T& t, const char* after) {
  c.check(m.NumRows() == (size_t)t.rows && m.NumCols() == (size_t)t.cols && m.NumElements() == t.v.size(), "shape", "%s: %zu x %zu (%zu elements), expected %d x %d", after, m.NumRows(), m.NumCols(), m.NumElements(), t.rows, t.cols);
  c.check(m.LongestDimensionLength() == (size_t)std::max(t.rows, t.cols), "shape", "%s: longest dimension %zu of %d x %d", after, m.LongestDimensionLength(), t.rows, t.cols);
  const auto v = ByColumns(t);
  for (int r = 0; r < t.rows; r++)
    for (int k = 0; k < t.cols; k++) c.check(Close(m(r, k), t.at(r, k)), "element", "%s: element %d,%d of %d x %d is %.17g, expected %.17g", after, r, k, t.rows, t.cols, m(r, k), t.at(r, k));
  size_t i = 0;
  for (auto it = m.cbegin(); it != m.cend(); ++it, ++i) c.check(i < v.size() && Close(*it, v[i]), "iteration", "%s: the iteration order is not by columns", after);
  c.check(i == v.size(), "iteration", "%s: iteration over %zu of %zu elements", after, i, v.size());
  for (i = 0; i < v.size(); i++) c.check(Close(m(i), v[i]) && Close(m.MemPtr()[i], v[i]) && Close(m.data()[i], v[i]), "memory", "%s: element number %zu is %.17g, expected %.17g", after, i, m(i), v[i]);
  for (int r = 0; r < t.rows; r++) {
    const auto row = m.GetRow(r);
    c.check(row.size() == (size_t)t.cols, "row", "%s: row of %zu", after, row.size());
    for (int k = 0; k < t.cols; k++) c.check(Close(row[k], t.at(r, k)), "row", "%s: row %d", after, r);
  }
  if (t.cols > 0) {
    const auto a = m.ToVector();
    const auto b = m.ToValArray();
    c.check(a.size() == (size_t)t.rows && b.size() == (size_t)t.rows, "vector", "%s: a first column of %zu and %zu", after, a.size(), b.size());
    for (int r = 0; r < t.rows; r++) c.check(Close(a[r], t.at(r, 0)) && Close(b[r], t.at(r, 0)), "vector", "%s: the first column", after);
  }
}
std::vector<double> Line(int n, int seed) {
  std::vector<double> v;
  for (int i = 0; i < n; i++) v.push_back(seed + i * 0.5);
  return v;
}
constexpr int kOps = 40;
// Performs one operation on both; false if it does not apply.
bool Step(mc::Ctx& c, int op, M* m, T* t, std::string* what) {
  const int r = t->rows, k = t->cols;
  const T other = Table(r, k, 3);
  const T before = *t;
  char name[40];
  snprintf(name, sizeof name, " op%d", op);
  *what += name;
  auto done = [&](const M& got, const T& want) {
    Judge(c, got, want, what->c_str());
    Judge(c, *m, before, (*what + " (the operand)").c_str());
    *m = got;
    *t = want;
    return true;
  };
  switch (op) {
    case 0: return done(m->Transpose(), Turn(*t));
    case 1: return done(m->FlipUpDown(), Flip(*t));
    case 2: return done(*m + Real(other), Map(*t, other, [](double a, double b) { return a + b; }));
    case 3: return done(*m - Real(other), Map(*t, other, [](double a, double b) { return a - b; }));
    case 4: return done(m->PointWiseProduct(Real(other)), Map(*t, other, [](double a, double b) { return a * b; }));
    case 5: return done(m->PointWiseDivide(Real(other) + 10.0), Map(*t, other, [](double a, double b) { return a / (b + 10); }));
    case 6: return done(*m + 1.5, Map(*t, *t, [](double a, double) { return a + 1.5; }));
    case 7: return done(*m * -2.5, Map(*t, *t, [](double a, double) { return a * -2.5; }));
    case 8: return done(*m - 0.75, Map(*t, *t, [](double a, double) { return a - 0.75; }));
    case 9: return done(*m / 4.0, Map(*t, *t, [](double a, double) { return a / 4; }));
    case 10: return done(M(*m) - *m, T(r, k));
    case 11: return done(m->GetRows(0, r - 1), *t);
    case 12: return r < 2 ? false : done(m->GetRows(1, r - 1), Sub(*t, 1, r - 1, 0, k - 1));
    case 13: return r < 2 ? false : done(m->GetRows(0, r - 2), Sub(*t, 0, r - 2, 0, k - 1));
    case 14: return done(m->GetColumn(k - 1), Sub(*t, 0, r - 1, k - 1, k - 1));
    case 15: return k < 2 ? false : done(m->GetColumns(1, k - 1), Sub(*t, 0, r - 1, 1, k - 1));
    case 16: return k < 2 ? false : done(m->GetColumns(0, k - 2), Sub(*t, 0, r - 1, 0, k - 2));
    case 17: return r < 2 || k < 2 ? false : done(m->GetSpan(1, r - 1, 0, k - 2), Sub(*t, 1, r - 1, 0, k - 2));
    case 18: return r < 3 ? false : done(m->GetSpan(1, 1, k - 1, k - 1), Sub(*t, 1, 1, k - 1, k - 1));
    case 19: return done(m->Mean(kDimension::COLUMN), Stat(*t, 0, false));
    case 20: return done(m->Mean(kDimension::ROW), Stat(*t, 1, false));
    case 21: return done(m->StdDev(kDimension::COLUMN), Stat(*t, 0, true));
    case 22: return done(m->StdDev(kDimension::ROW), Stat(*t, 1, true));
    case 23: {
      if (r > 12) return false;
      T two(r * 2, k);
      for (int i = 0; i < r * 2; i++)
        for (int j = 0; j < k; j++) two.at(i, j) = t->at(i % r, j);
      return done(m->JoinVertically(*m), two);
    }
    case 24: {
      T two(r + 1, k);
      const T last = Table(1, k, 5);
      for (int i = 0; i <= r; i++)
        for (int j = 0; j < k; j++) two.at(i, j) = i < r ? t->at(i, j) : last.at(0, j);
      return done(m->JoinVertically(Real(last)), two);
    }
    case 25: case 26: case 27: case 28: {
      const int nr = op == 25 ? r + 1 : op == 26 ? std::max(1, r - 1) : op == 27 ? r : r + 2;
      const int nk = op == 25 ? k : op == 26 ? k : op == 27 ? k + 1 : std::max(1, k - 1);
      T n(nr, nk);
      for (int i = 0; i < std::min(r, nr); i++)
        for (int j = 0; j < std::min(k, nk); j++) n.at(i, j) = t->at(i, j);
      m->Resize(nr, nk);
      *t = n;
      break;
    }
    case 29: case 30: {
      const int row = op == 29 ? 0 : r - 1;
      const auto v = Line(k, 7);
      if (op == 29) m->SetRow(row, v);
      else m->SetRow(row, std::valarray<double>(v.data(), v.size()));
      for (int j = 0; j < k; j++) t->at(row, j) = v[j];
      break;
    }
    case 31: case 32: case 33: {
      const int col = op == 31 ? 0 : k - 1;
      auto v = Line(r, -4);
      for (int i = 0; i < r; i++) t->at(i, col) = v[i];
      if (op == 31) m->SetColumn(col, std::move(v));
      else if (op == 32) m->SetColumn(col, std::valarray<double>(v.data(), v.size()));
      else m->SetColumn(col, M(v));
      break;
    }
    case 34: (*m)(r - 1, k - 1) = 9; t->at(r - 1, k - 1) = 9; break;
    case 35: (*m)(size_t(r * k / 2)) = -9; t->at(r * k / 2 % r, r * k / 2 / r) = -9; break;
    case 36: for (auto& x : *m) x += 0.5; for (double& x : t->v) x += 0.5; break;
    case 37: m->mutData()[0] = 0.25; t->at(0, 0) = 0.25; break;
    case 38: {
      // A copy is a matrix of its own.
      M copy(*m), assigned;
      assigned = *m;
      copy(0, 0) = 100;
      assigned(0, 0) = 200;
      c.check((r * k == 0) || (copy(0, 0) == 100 && assigned(0, 0) == 200), "copy", "a copy shares its elements");
      break;
    }
    case 39: {
      const int row = r / 2, from = k / 3, to = k - 1;
      const auto v = m->RowSubset(row, from, to);
      c.check(v.size() == size_t(to - from + 1), "row-subset", "%s: %zu elements", what->c_str(), v.size());
      for (int j = from; j <= to; j++) c.check(Close(v[j - from], t->at(row, j)), "row-subset", "%s: element %d", what->c_str(), j);
      break;
    }
  }
  Judge(c, *m, *t, what->c_str());
  return true;
}
std::string Dims(const T& t) { return std::to_string(t.rows) + " x " + std::to_string(t.cols) + ":"; }
std::complex<double> Z(int i, int seed) { return {((i * 3 + seed) % 7 - 3) * 0.5 + 0.1, ((i * 5 + seed * 2) % 9 - 4) * 0.25}; }
}  // namespace

// Every sequence of operations.
SCENARIO(sequences) {
  const int depth = c.tier(4, 5);
  const auto [rows, cols] = c.pick("shape", std::vector<std::pair<int, int>>{{1, 1}, {1, 3}, {3, 1}, {2, 2}, {3, 4}, {4, 2}});
  T t = Table(rows, cols, 1);
  M m = Real(t);
  std::string what = Dims(t);
  for (int i = 0; i < depth; i++) {
    if (i + 1 < depth) {
      if (!Step(c, c.choose("operation", kOps), &m, &t, &what)) c.skip();
      continue;
    }
    for (int op = 0; op < kOps; op++) {
      M a = m;
      T b = t;
      std::string w = what;
      Step(c, op, &a, &b, &w);
      Judge(c, m, t, (w + " on a copy").c_str());
    }
    c.count(kOps - 1);
  }
}

// Large matrices: every pair of operations; and a long sequence of each operation
// with each other one on a small one.
SCENARIO(large) {
  const auto [rows, cols] = c.pick("shape", c.thorough() ? std::vector<std::pair<int, int>>{{1, 4099}, {4099, 1}, {65, 130}, {32, 512}, {300, 20}, {1, 70001}, {70001, 1}, {257, 263}}
                                                         : std::vector<std::pair<int, int>>{{1, 4099}, {4099, 1}, {65, 130}, {32, 128}});
  T t = Table(rows, cols, 1);
  M m = Real(t);
  std::string what = Dims(t);
  if (!Step(c, c.choose("operation", kOps), &m, &t, &what)) c.skip();
  for (int op = 0; op < kOps; op++) {
    M a = m;
    T b = t;
    std::string w = what;
    Step(c, op, &a, &b, &w);
  }
  for (int d = 0; d < 2; d++) {
    const kDimension dim = d ? kDimension::ROW : kDimension::COLUMN;
    Judge(c, m.Mean(dim), Stat(t, d, false), "mean");
    Judge(c, m.StdDev(dim), Stat(t, d, true), "deviation");
  }
  long double sum = 0, top = t.v[0];
  for (double x : t.v) sum += x, top = std::max<long double>(top, x);
  c.check(Near(Visqol::MiscVector::Sum(m), sum, 1e-10, 1e-8) && Near(Visqol::MiscVector::Mean(m), sum / t.v.size(), 1e-10, 1e-8), "sum", "sum %.17g and mean %.17g", Visqol::MiscVector::Sum(m), Visqol::MiscVector::Mean(m));
  M other = m;
  other(t.v.size() - 1) += 1;
  c.check(m == M(m) && !(m == other), "equality", "the last of %zu elements", t.v.size());
  c.count(kOps);
  c.note("%s", what.c_str());
}
SCENARIO(long_sequences) {
  const int a = c.choose("one", kOps), b = c.choose("other", kOps), steps = c.tier(40, 300);
  T t = Table(3, 4, 1);
  M m = Real(t);
  std::string what;
  for (int i = 0; i < steps; i++) {
    what = "3 x 4: step " + std::to_string(i);
    if (t.v.size() > 3000) break;
    if (!Step(c, i % 2 ? b : a, &m, &t, &what)) break;
    // Numbers that grow without bound are cut.
    bool big = false;
    for (double x : t.v) big |= !(fabs(x) < 1e6);
    if (!big) continue;
    t = Table(t.rows, t.cols, i);
    m = Real(t);
  }
  c.note("operations %d and %d in turns", a, b);
}

// Every way of making a matrix, at every shape.
SCENARIO(construction) {
  const int rows = 1 + c.choose("rows", c.tier(9, 20)), cols = 1 + c.choose("columns", c.tier(9, 20));
  const T t = Table(rows, cols, 2);
  const auto v = ByColumns(t);
  Judge(c, M(rows, cols, v), t, "from numbers");
  {
    auto temporary = std::make_unique<std::vector<double>>(v);
    M m(rows, cols, std::move(*temporary));
    temporary.reset();
    std::vector<double> reuse(v.size(), -1);
    Judge(c, m, t, "from a temporary");
  }
  std::vector<std::vector<double>> columns(cols);
  for (int k = 0; k < cols; k++)
    for (int r = 0; r < rows; r++) columns[k].push_back(t.at(r, k));
  Judge(c, M(columns), t, "from columns");
  Judge(c, M::Filled(rows, cols, 2.5), T(rows, cols, 2.5), "filled");
  const T one = Sub(t, 0, rows - 1, 0, 0);
  Judge(c, M(columns[0]), one, "from a vector");
  Judge(c, M(std::valarray<double>(columns[0].data(), rows)), one, "from a valarray");
  std::vector<double> span = columns[0];
  const absl::Span<double> s(span);
  M from_span(s);
  span.assign(rows, 50);
  Judge(c, from_span, one, "from a span");
  M arma_copy(Real(t).GetArmaMat());
  Judge(c, arma_copy, t, "from the library's matrix");
  M later;
  later = Real(t);
  Judge(c, later, t, "assigned");
  later = later;
  Judge(c, later, t, "assigned to itself");
}

// Two matrices are equal when shape and elements are, and only then.
SCENARIO(equality) {
  const int r1 = c.choose("rows", 7), k1 = c.choose("columns", 7), r2 = c.choose("rows of the other", 7), k2 = c.choose("columns of the other", 7);
  const M a = M::Filled(r1, k1, 1), b = M::Filled(r2, k2, 1);
  c.check((a == b) == (r1 == r2 && k1 == k2), "equality", "%d x %d and %d x %d: %s", r1, k1, r2, k2, a == b ? "equal" : "different");
  if (r1 != r2 || k1 != k2) return;
  for (int i = 0; i < r1 * k1; i++) {
    M d = a;
    d(size_t(i)) = 1.0000001;
    c.check(!(a == d) && !(d == a) && d == M(d), "equality", "%d x %d: a difference in element %d is missed", r1, k1, i);
  }
}

// Subranges: every one, of every shape.
SCENARIO(ranges) {
  const int rows = 1 + c.choose("rows", c.tier(6, 9)), cols = 1 + c.choose("columns", c.tier(6, 9));
  const T t = Table(rows, cols, 4);
  const M m = Real(t);
  uint64_t n = 0;
  for (int r0 = 0; r0 < rows; r0++)
    for (int r1 = r0; r1 < rows; r1++) {
      Judge(c, m.GetRows(r0, r1), Sub(t, r0, r1, 0, cols - 1), "rows");
      for (int k0 = 0; k0 < cols; k0++)
        for (int k1 = k0; k1 < cols; k1++, n++) {
          Judge(c, m.GetSpan(r0, r1, k0, k1), Sub(t, r0, r1, k0, k1), "span");
          if (r0 == 0) Judge(c, m.GetColumns(k0, k1), Sub(t, 0, rows - 1, k0, k1), "columns");
          const auto v = m.RowSubset(r1, k0, k1);
          for (int k = k0; k <= k1; k++) c.check(v.size() == size_t(k1 - k0 + 1) && v[k - k0] == t.at(r1, k), "row-subset", "row %d, columns %d to %d", r1, k0, k1);
        }
    }
  for (int k = 0; k < cols; k++) Judge(c, m.GetColumn(k), Sub(t, 0, rows - 1, k, k), "column");
  for (int nr = 1; nr <= rows + 2; nr++)
    for (int nk = 1; nk <= cols + 2; nk++, n++) {
      M x = m;
      x.Resize(nr, nk);
      T want(nr, nk);
      for (int r = 0; r < std::min(rows, nr); r++)
        for (int k = 0; k < std::min(cols, nk); k++) want.at(r, k) = t.at(r, k);
      Judge(c, x, want, "resized");
    }
  c.count(n);
}

// Statistics of rows and columns, sums and means, for every small matrix.
SCENARIO(statistics) {
  const int rows = 1 + c.choose("rows", 3), cols = 1 + c.choose("columns", 3);
  std::vector<double> alphabet = {0, 1, -1.5, 1000.25};
  T t(rows, cols);
  for (double& x : t.v) x = t.v.size() > 6 ? alphabet[c.choose("element", c.tier(2, 3))] : c.pick("element", alphabet);
  const M m = Real(t);
  Judge(c, m.Mean(kDimension::COLUMN), Stat(t, 0, false), "mean of columns");
  Judge(c, m.Mean(kDimension::ROW), Stat(t, 1, false), "mean of rows");
  Judge(c, m.StdDev(kDimension::COLUMN), Stat(t, 0, true), "deviation of columns");
  Judge(c, m.StdDev(kDimension::ROW), Stat(t, 1, true), "deviation of rows");
  long double s = 0, top = t.v[0];
  for (double x : t.v) s += x, top = std::max<long double>(top, x);
  c.check(Close(Visqol::MiscVector::Sum(m), s) && Close(Visqol::MiscVector::Mean(m), s / t.v.size()), "sum", "sum %.17g and mean %.17g", Visqol::MiscVector::Sum(m), Visqol::MiscVector::Mean(m));
  if (top > 0) {
    T want = t;
    for (double& x : want.v) x /= top;
    Judge(c, Visqol::MiscMath::Normalize(m), want, "normalised");
  }
}

// Complex matrices.
SCENARIO(complex_matrices) {
  const int rows = 1 + c.choose("rows", c.tier(8, 16)), cols = 1 + c.choose("columns", c.tier(8, 16));
  typedef std::complex<double> C;
  std::vector<C> a, b;
  for (int i = 0; i < rows * cols; i++) a.push_back(Z(i, 1)), b.push_back(Z(i, 3));
  const AMatrix<C> x(rows, cols, a), y(rows, cols, b);
  const auto sum = x + y, difference = x - y, product = x.PointWiseProduct(y), scaled = x * C(2, -1);
  for (int r = 0; r < rows; r++)
    for (int k = 0; k < cols; k++) {
      const C p = a[k * rows + r], q = b[k * rows + r];
      c.check(x(r, k) == p && sum(r, k) == p + q && difference(r, k) == p - q && std::abs(product(r, k) - p * q) < 1e-12 && std::abs(scaled(r, k) - p * C(2, -1)) < 1e-12, "complex",
              "complex matrices of %d x %d, element %d,%d", rows, cols, r, k);
    }
  c.check(x == AMatrix<C>(x) && (a == b || !(x == y)), "equality", "complex matrices of %d x %d", rows, cols);
}

// Arrays of complex numbers.
SCENARIO(complex_arrays) {
  const int n = c.choose("elements", c.tier(24, 80)), op = c.choose("operation", 19);
  typedef std::complex<double> C;
  using A = Visqol::ComplexValArray;
  A x(n), y(n);
  std::valarray<double> d(n);
  for (int i = 0; i < n; i++) x[i] = Z(i, 1), y[i] = Z(i, 4), d[i] = (i % 5) * 0.5 + 0.25;
  const A x0 = x, y0 = y;
  const C k(0.5, -2);
  auto result = [&]() -> A {
    switch (op) {
      case 0: return x + 2.0;
      case 1: return x + y;
      case 2: return -x;
      case 3: return x - 3.0;
      case 4: return x - y;
      case 5: return x * 1.5;
      case 6: return x * k;
      case 7: return x * y;
      case 8: return x / 4.0;
      case 9: return x / y;
      case 10: return x / d;
      case 11: return x ^ 2.0;
      case 12: return x.exp();
      case 13: return x.sin();
      case 14: return x.cos();
      case 15: return 1.5 * x;
      case 16: return 2.0 + x;
      case 17: return k * x;
      default: return 3.0 / x;
    }
  };
  const A got = result();
  c.check(got.size() == (size_t)n, "array-size", "operation %d on %d elements gives %zu", op, n, got.size());
  auto m = x.abs();
  auto parts = x.ToDoubleVector();
  const A from(std::vector<double>(std::begin(d), std::end(d))), from2(d);
  c.check(m.size() == (size_t)n && parts.size() == (size_t)n && from.size() == (size_t)n && from2.size() == (size_t)n, "array-size", "%d elements", n);
  for (int i = 0; i < n; i++) {
    const C a = Z(i, 1), b = Z(i, 4);
    C want;
    switch (op) {
      case 0: case 16: want = a + 2.0; break;
      case 1: want = a + b; break;
      case 2: want = -a; break;
      case 3: want = a - 3.0; break;
      case 4: want = a - b; break;
      case 5: case 15: want = a * 1.5; break;
      case 6: case 17: want = a * k; break;
      case 7: want = a * b; break;
      case 8: want = a / 4.0; break;
      case 9: want = a / b; break;
      case 10: want = a / d[i]; break;
      case 11: want = a * a; break;
      case 12: want = std::exp(a.real()) * C(cos(a.imag()), sin(a.imag())); break;
      case 13: want = C(sin(a.real()) * cosh(a.imag()), cos(a.real()) * sinh(a.imag())); break;
      case 14: want = C(cos(a.real()) * cosh(a.imag()), -sin(a.real()) * sinh(a.imag())); break;
      default: want = 3.0 / a;
    }
    const C g = got.at(i);
    c.check(std::abs(g - want) <= 1e-12 * (1 + std::abs(want)), "array", "operation %d on %d elements, element %d: %g%+gi, expected %g%+gi", op, n, i, g.real(), g.imag(), want.real(), want.imag());
    c.check(x.at(i) == x0.at(i) && y.at(i) == y0.at(i), "array-operand", "operation %d changes its operand", op);
    c.check(Close(m[i], hypot(a.real(), a.imag())) && parts[i] == a.real() && from.at(i) == C(d[i], 0) && from2.at(i) == C(d[i], 0), "array", "sizes and parts, element %d", i);
  }
}

// Two-dimensional filters: every size of filter and matrix.
SCENARIO(convolution) {
  const int fr = 1 + c.choose("filter rows", 4), fk = 1 + c.choose("filter columns", 4);
  const int rows = 1 + c.choose("rows", c.tier(7, 12)), cols = 1 + c.choose("columns", c.tier(7, 12));
  const T f = Table(fr, fk, 6), t = Table(rows, cols, 8);
  if (rows + 2 < fr || cols + 2 < fk) c.skip();
  const M in = Real(t);
  const M got = Visqol::Convolution2D<double>::Valid2DConvWithBoundary(Real(f), in);
  T want(rows + 3 - fr, cols + 3 - fk);
  auto edge = [&](int r, int k) { return t.at(std::min(std::max(r - 1, 0), rows - 1), std::min(std::max(k - 1, 0), cols - 1)); };
  for (int r = 0; r < want.rows; r++)
    for (int k = 0; k < want.cols; k++) {
      double s = 0;
      for (int i = 0; i < fr; i++)
        for (int j = 0; j < fk; j++) s += f.at(fr - 1 - i, fk - 1 - j) * edge(r + i, k + j);
      want.at(r, k) = s;
    }
  Judge(c, got, want, "filtered");
  Judge(c, in, t, "the filtered matrix");
  // A single one in the matrix.
  for (int i = 0; i < rows * cols; i++) {
    T unit(rows, cols);
    unit.v[i] = 1;
    const M a = Visqol::Convolution2D<double>::Valid2DConvWithBoundary(Real(f), Real(unit));
    double sum = 0, expected = 0;
    for (int r = 0; r < want.rows; r++)
      for (int k = 0; k < want.cols; k++) {
        sum += a(r, k);
        for (int x = 0; x < fr; x++)
          for (int y = 0; y < fk; y++) {
            const int er = std::min(std::max(r + x - 1, 0), rows - 1), ek = std::min(std::max(k + y - 1, 0), cols - 1);
            if (er * cols + ek == i) expected += f.at(fr - 1 - x, fk - 1 - y);
          }
      }
    c.check(fabs(sum - expected) < 1e-9, "filter-sum", "%d x %d filter, %d x %d matrix: the answer to one at %d adds up to %g, expected %g", fr, fk, rows, cols, i, sum, expected);
  }
  c.count(rows * cols);
}

// 16-bit samples as numbers, all of them.
SCENARIO(samples) {
  const int from = -32768 + 4096 * c.choose("part", 16);
  std::vector<int16_t> in;
  for (int i = 0; i < 4096; i++) in.push_back(from + i);
  const auto copy = in;
  const auto out = Visqol::MiscMath::NormalizeInt16ToDouble(in);
  c.check(out.size() == in.size() && in == copy, "samples", "%zu samples from %zu", out.size(), in.size());
  for (int i = 0; i < 4096; i++) c.check(out[i] == in[i] / 32768.0, "samples", "sample %d is %.17g", in[i], out[i]);
  c.count(4095);
}
