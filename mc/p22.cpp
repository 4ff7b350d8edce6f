// P22: the linear solver
#include "gpr.h"
#include "src/scipy/lgmres.h"
using namespace gpr;

static Mat matrix(int n, const int *e) {
  Mat A(n, n);
  for (int i = 0; i < n * n; i++)
    A(i / n, i % n) = e[i];
  return A;
}
static double cond(const Mat &A) {
  Eigen::JacobiSVD<Eigen::MatrixXd> s{Eigen::MatrixXd(A)};
  double lo = s.singularValues().minCoeff();
  return lo > 0 ? s.singularValues().maxCoeff() / lo : 1e300;
}
static bool positive(const Mat &A) { // symmetric part is definite
  Eigen::MatrixXd S = A + A.transpose();
  Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> es(S);
  double lo = es.eigenvalues().minCoeff(), hi = es.eigenvalues().maxCoeff();
  return lo > 0.1 || hi < -0.1;
}
static std::string show(const Mat &A) {
  std::ostringstream o;
  for (long i = 0; i < A.rows(); i++)
    o << (i ? "; " : "[") << A.row(i);
  o << "]";
  return o.str();
}
struct Case {
  Mat A, M;
  Vec b, x0;
  double tol;
  int maxiter, inner, outer;
};
// one solve and everything that must hold for it
static Vec solve(mc::Ctx &c, const Case &k, std::vector<Vec> &ov, const std::string &w, bool converges, bool restarts) {
  Case y = k;
  size_t before = ov.size();
  (void)before;
  Vec x = lgmres_wrapper(y.A, y.b, y.x0, y.M, k.tol, k.maxiter, k.inner, k.outer, ov);
  c.step();
  c.state_of(x);
  c.expect(same_bits(y.A, k.A) && same_bits(y.b, k.b) && same_bits(y.x0, k.x0) && same_bits(y.M, k.M), "inputs", w + ": an argument was changed");
  c.expect(x.size() == k.b.size() && finite(x), "finite", w + mc::cat(": result ", x.transpose()));
  Vec s = k.x0.size() ? k.x0 : Vec(Vec::Zero(k.b.size()));
  Vec r0 = k.b - k.A * s, r = k.b - k.A * x;
  double lim = std::max(k.tol, k.tol * (k.b.norm() > 0 ? k.b.norm() : 1));
  if (r0.norm() <= lim * (1 - 1e-12)) {
    c.expect(x == s, "start", w + ": the starting vector was good enough but not returned");
    return x;
  }
  if (k.maxiter == 0)
    c.expect(x == s, "start", w + ": no iteration was allowed");
  if (converges)
    c.expect(r.norm() <= lim * (1 + 1e-6) + 1e-13, "residual", w + mc::cat(": residual ", r.norm(), " above ", lim, " of x=", x.transpose()));
  if (k.M.size() == 0)
    c.expect(r.norm() <= r0.norm() * (1 + 1e-9) + 1e-13, "grows", w + mc::cat(": residual grew from ", r0.norm(), " to ", r.norm()));
  else {
    Vec p0 = k.M * r0, p = k.M * r;
    c.expect(p.norm() <= p0.norm() * (1 + 1e-9) + 1e-13, "grows", w + mc::cat(": preconditioned residual grew from ", p0.norm(), " to ", p.norm()));
  }
  c.expect((int)ov.size() <= k.outer, "kept", w + mc::cat(": ", ov.size(), " vectors kept"));
  for (auto &v : ov)
    c.expect(v.size() == k.b.size() && std::abs(v.norm() - 1) < 1e-9, "kept", w + ": kept vectors are not of unit length");
  return x;
}
static Vec rhs(int n, int k) {
  Vec b(n);
  for (int i = 0; i < n; i++)
    b(i) = k == 0 ? 1 - 0.7 * i : k == 1 ? (i == n - 1) : k == 2 ? 0 : k == 3 ? 1000. + 300 * i : k == 4 ? 1e-3 * (2 - i) : std::sin(1. + 2 * i);
  return b;
}
static Mat precond(const Mat &A, int k) {
  int n = A.rows();
  if (k == 0)
    return Mat(0, 0);
  if (k == 1)
    return A.inverse();
  Mat M = Mat::Identity(n, n);
  if (k == 2)
    M *= -0.01;
  else
    for (int i = 0; i < n; i++) {
      M(i, i) = 1 + i;
      if (i)
        M(i, i - 1) = 0.5;
    }
  return M;
}
static const double TOL[] = {1e-5, 1e-10, 0.1};

// every small matrix
static void small(mc::Ctx &c) {
  int n = 1 + c.choose(3, "size");
  static const int E[] = {0, 1, -1, 2, 3};
  int na = n == 3 ? (mc::thorough ? 4 : 3) : 5;
  int e[9];
  for (int i = 0; i < n * n; i++)
    e[i] = E[c.choose(na, "entry")];
  c.shard();
  Mat A = matrix(n, e);
  if (std::abs(A.determinant()) < 0.5)
    throw mc::Skip();
  Case k;
  k.A = A;
  int kb = c.choose(n == 3 && !mc::thorough ? 3 : 6, "rhs"), pre = c.choose(n == 3 && !mc::thorough ? 2 : 4, "preconditioner"), ks = c.choose(4 - (n == 3), "start");
  if (n == 3 && pre && !mc::thorough)
    pre = 3;
  k.b = rhs(n, kb);
  k.M = precond(A, pre);
  if (ks == 1)
    k.x0 = rhs(n, 5);
  else if (ks == 2)
    k.x0 = A.inverse() * k.b;
  else if (ks == 3)
    k.x0 = Vec::Zero(n);
  int d = c.choose(n == 3 ? 3 : 5, "limits"); // restart lengths, tolerances and iterations
  k.tol = TOL[d % 3];
  k.inner = d == 1 ? n : d == 2 ? 1 : d == 3 ? 2 : 30;
  k.outer = d == 3 ? 0 : d == 1 ? 1 : 3;
  k.maxiter = d == 4 ? 0 : d == 1 ? 3 : 1000;
  std::string w = show(A) + mc::cat(" b ", kb, " preconditioner ", pre, " start ", ks, " limits ", d);
  c.note(w);
  bool full = k.inner >= n && k.maxiter;
  Mat P = pre ? Mat(k.M * A) : A;
  std::vector<Vec> ov;
  solve(c, k, ov, w, full || (k.maxiter >= 1000 && positive(P)), !full);
}
// all sequences of solves that pass on their kept vectors
static void recycle(mc::Ctx &c) {
  int n = 2 + c.choose(mc::thorough ? 3 : 2, "size"), depth = mc::thorough ? 5 : 4;
  int outer = 1 + c.choose(4, "kept"), pre = c.choose(2, "preconditioner") * 3;
  int inner = c.choose(2, "restart") ? 1 : 30;
  std::vector<Vec> ov;
  std::string w = mc::cat("size ", n, " kept ", outer, " restart ", inner, ":");
  for (int s = 0; s < depth; s++) {
    int ka = c.choose(2, "matrix"), kb = c.choose(3, "rhs");
    if (s == 1)
      c.shard();
    Mat A = Mat::Identity(n, n);
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++)
        A(i, j) = ka == 0 ? (i == j ? 2 + 0.5 * i : i < j ? 0.7 : -0.4) : (i == j ? -3. : 1. / (1 + i + j));
    Case k{A, precond(A, pre), rhs(n, kb == 2 ? 5 : kb), Vec(0), 1e-8, 1000, inner, outer};
    w += mc::cat(" (", ka, ",", kb, ")");
    c.note(w);
    solve(c, k, ov, w, true, inner < n);
  }
}
// sequences of solves of different sizes without kept vectors: each as if it were the first
static void history(mc::Ctx &c) {
  static const int SZ[] = {1, 3, 7, 33};
  Vec first[4];
  std::string w;
  for (int s = 0; s < 3; s++) {
    int q = c.choose(4, "size"), n = SZ[q];
    if (s == 0)
      c.shard();
    w += mc::cat(" ", n);
    Mat A(n, n);
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++)
        A(i, j) = i == j ? 3. : std::cos(3. * i + 2 * j * j) / n;
    Case k{A, Mat(0, 0), rhs(n, 5), Vec(0), 1e-9, 1000, 30, 3};
    std::vector<Vec> ov;
    Vec x = solve(c, k, ov, "sizes" + w, true, false);
    if (first[q].size())
      c.expect(same_bits(x, first[q]), "history", "sizes" + w + ": the solution depends on earlier solves");
    first[q] = x;
  }
}
// larger structured systems
static void large(mc::Ctx &c) {
  int n = 2 + c.choose(mc::thorough ? 48 : 36, "size"), kind = c.choose(7, "kind"), pre = c.choose(4, "preconditioner");
  c.shard();
  int kb = c.choose(6, "rhs"), ks = c.choose(2, "start"), lim = c.choose(3, "limits");
  Mat A = Mat::Zero(n, n);
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++) {
      double x = 0;
      switch (kind) {
      case 0: x = i == j ? 2.2 : std::abs(i - j) == 1 ? -1 : 0; break;                  // diffusion
      case 1: x = i == j ? 1.5 : j == i - 1 ? -1 : 0; break;                            // transport
      case 2: x = (i + 1) % n == j; break;                                              // cyclic shift
      case 3: x = i == j ? -1 - 0.1 * i : 0; break;                                     // diagonal
      case 4: x = i == j ? 2 : j > i ? 0.5 / n : -0.5 / n; break;                       // nonsymmetric
      case 5: x = i == j ? (i % 2 ? 1 : -1) : 0.3 * (i + j == n - 1); break;            // indefinite
      default: x = (i == j) - 2. / n * (1); break;                                      // reflection
      }
      A(i, j) = x;
    }
  Case k;
  k.A = A;
  k.b = rhs(n, kb);
  k.M = precond(A, pre);
  if (ks)
    k.x0 = rhs(n, 5);
  k.tol = lim == 0 ? 1e-5 : lim == 1 ? 1e-9 : 1e-3;
  k.inner = lim == 2 ? 5 : 30;
  k.outer = lim == 2 ? 2 : 3;
  k.maxiter = 1000;
  std::string w = mc::cat("kind ", kind, " size ", n, " b ", kb, " preconditioner ", pre, " start ", ks, " limits ", lim);
  c.note(w);
  if (cond(A) > 1e4)
    throw mc::Skip();
  std::vector<Vec> ov;
  Mat P = pre ? Mat(k.M * A) : A;
  bool full = k.inner >= n;
  solve(c, k, ov, w, full || positive(P), !full);
}
int main(int argc, char **argv) {
  std::vector<mc::Scenario> s;
  s.push_back({"small", small, 20});
  s.push_back({"recycle", recycle, 20});
  s.push_back({"history", history, 20});
  s.push_back({"large", large, 20});
  return mc::main_(argc, argv, s);
}
