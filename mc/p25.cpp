// P25: the time loop
#include "evolve.h"
#include "src/multi/fill.h"
#include "src/solvers/iterator.h"
#include "src/solvers/utils.h"
#include "src/system/eig.h"
using namespace gpr;

struct Run {
  Domain D;
  std::vector<Par> MPs;
  Vec u;
  double tf = 1, cfl = 0.5, tol = 1e9;
  int stepper = SPLIT_FULL, flux = 0;
};
static bool split(const Run &r) { return r.stepper == SPLIT_FULL || r.stepper == SPLIT_HALF; }
static std::vector<Vec> run(mc::Ctx &c, const Run &r, const std::string &w) {
  Guarded<Vec> u(r.u);
  auto MPs = r.MPs;
  iVec nX = r.D.nX, bt = r.D.bt;
  aVec dX = r.D.dX;
  std::vector<Vec> o = iterator(u.seg(), r.tf, nX, dX, r.cfl, bt, split(r), r.stepper == SPLIT_HALF, r.stepper == ADER_STIFF, r.flux, MPs, r.tol);
  c.step();
  for (auto &x : o)
    if (x.size())
      c.state_of(x);
  c.expect(u.intact(), "outside", w + ": wrote outside of the state");
  c.expect(o.size() == 100, "outputs", w + mc::cat(": ", o.size(), " outputs"));
  c.expect(nX == r.D.nX && bt == r.D.bt && dX.matrix() == Vec(r.D.dX), "inputs", w);
  return o;
}
static bool broken(const Vec &u) {
  for (long i = 0; i < u.size(); i++)
    if (std::isnan(u(i)))
      return true;
  return false;
}
static int index_of(const Vec &u, int i) {
  int k = 0;
  for (int l = 0; l < LSET; l++)
    k += u(i * V + V - LSET + l) >= 0;
  return k;
}
// the states of the run after every step, composed of the building blocks
struct Trace {
  std::vector<Vec> u; // u[0] is the initial state
  std::vector<double> t;
  bool failed = false, full = false, lost = false;
};
// noise: relative size of a disturbance of the initial state and of the time steps
static Trace trace(const Run &r, long most, double noise = 0) {
  Trace T;
  int nmat = r.MPs.size(), n = r.D.ncell();
  auto MPs = r.MPs;
  Vec u = r.u, dXv = r.D.dX;
  for (int i = 0; i < u.size() && noise; i++)
    if (i % V < V - LSET)
      u(i) *= 1 + noise * ((i * 7 + 3) % 5 - 2);
  aVec dX = r.D.dX;
  iVec nX = r.D.nX, bt = r.D.bt;
  std::vector<Vec> g(nmat, u);
  std::vector<bVec> mk(nmat, ones(n));
  Vec ub(extended_dimensions(nX, N) * V);
  bVec mb(extended_dimensions(nX, 1));
  double t = 0, dt = 0;
  T.u.push_back(u);
  T.t.push_back(0);
  for (long k = 0; t < r.tf; k++) {
    if (k == most)
      return T;
    if (LSET > 0)
      fill_ghost_cells(g, mk, u, nX, dX, dt, MPs);
    else
      g[0] = u;
    double top = 0;
    for (int m = 0; m < nmat; m++)
      for (int i = 0; i < n && MPs[m].EOS != VACUUM; i++)
        if (mk[m](i)) {
          double s = 0;
          for (int d = 0; d < dX.size(); d++)
            s += max_abs_eigs(g[m].segment<V>(i * V), d, MPs[m]) / dX(d);
          top = s > top ? s : top;
        }
    dt = r.cfl / top * (1 + noise * (k % 3 - 1));
    if (k <= 5)
      dt *= 0.2;
    bool last = t + dt > r.tf;
    if (last)
      dt = r.tf - t;
    for (int m = 0; m < nmat; m++)
      if (MPs[m].EOS != VACUUM) {
        boundaries(g[m], ub, nX, bt);
        extend_mask(mk[m], mb, nX);
        if (split(r))
          split_stepper(g[m], ub, nX, dt, dX, r.stepper == SPLIT_HALF, r.flux, MPs[m], mb);
        else
          ader_stepper(g[m], ub, nX, dt, dX, r.stepper == ADER_STIFF, r.flux, MPs[m], mb);
      }
    if (LSET > 0)
      for (int i = 0; i < n; i++) {
        for (int l = V - LSET; l < V; l++) {
          double s = 0, cnt = 0;
          for (int m = 0; m < nmat; m++)
            if (mk[m](i)) {
              s += g[m](i * V + l);
              cnt++;
            }
          if (cnt)
            u(i * V + l) = s / cnt;
        }
        int m = index_of(u, i);
        if (m >= nmat) { // an unstable run has moved an interface that belongs to no material
          T.lost = true;
          return T;
        }
        for (int v = 0; v < V - LSET; v++)
          u(i * V + v) = MPs[m].EOS == VACUUM ? 0 : g[m](i * V + v);
      }
    else
      u = g[0];
    if (MULTI)
      for (int i = 0; i < n; i++) {
        double &x = u(i * V + mV);
        x = std::max(0., std::min(x, u(i * V)));
      }
    t += dt;
    for (int i = 0; i < n; i++) {
      const Par &m = MPs[index_of(u, i)];
      if (m.EOS != VACUUM && u(i * V) > 0) {
        Mat3_3 A = Mat3_3Map(u.data() + i * V + 5);
        u.segment<9>(i * V + 5) *= cbrt(u(i * V) / (m.ρ0 * A.determinant()));
      }
    }
    if (ROTATE_DISTORTION && (k + 1) % 10 == 0)
      rotate_distortion(u, MPs);
    if (contorted(u, r.tol))
      reset_distortion(u, MPs);
    T.u.push_back(u);
    T.t.push_back(t);
    if (broken(u)) {
      T.failed = true;
      return T;
    }
  }
  T.full = true;
  return T;
}
// which states are returned
struct Expected {
  std::vector<int> idx; // of every output, -1: empty
  bool tie = false;     // an output time coincides with the time of a step
};
static Expected expected(const Trace &T, double tf) {
  Expected E;
  E.idx.assign(100, -1);
  int p = 0, last = T.u.size() - 1;
  for (int k = 1; k <= last; k++) {
    if (T.failed && k == last)
      break;
    double x = double(p + 1) / 100 * tf;
    if (k < last && std::abs(T.t[k] - x) < 1e-9 * tf && T.t[k] != x)
      E.tie = true;
    if (p < 100 && T.t[k] >= x)
      E.idx[p++] = k;
  }
  if (T.failed) {
    int i = std::min(p, 98);
    E.idx[i] = last - 1;
    E.idx[i + 1] = last;
    for (int j = i + 2; j < 100; j++)
      E.idx[j] = -1;
  } else
    E.idx[99] = last;
  return E;
}
// A run that amplifies rounding errors is compared as far as it is determined. When it differs, runs with
// disturbances of the size of rounding errors tell how much: the largest difference of each returned state
// from the undisturbed one (infinite if the number of steps, or the choice of states, depends on them).
static std::vector<double> blur(const Run &r, const Trace &T, const Expected &E, long most) {
  std::vector<double> b(100, 0);
  for (double noise : {1e-15, -7e-15, 2e-13}) {
    Trace T2 = trace(r, most, noise);
    Expected E2 = expected(T2, r.tf);
    if (E2.tie || T2.lost || T.failed != T2.failed || T.u.size() != T2.u.size() || E.idx != E2.idx)
      return std::vector<double>(100, INFINITY);
    for (int k = 0; k < 100; k++)
      if (E.idx[k] >= 0) {
        const Vec &x = T.u[E.idx[k]], &y = T2.u[E.idx[k]];
        double d = broken(x) != broken(y) ? INFINITY : broken(x) ? 0 : (x - y).cwiseAbs().maxCoeff();
        b[k] = std::max(b[k], d);
      }
  }
  return b;
}
static void compare(mc::Ctx &c, const Run &r, const std::vector<Vec> &o, const Trace &T, const std::string &w, double tol, long most) {
  Expected E = expected(T, r.tf);
  if (E.tie)
    return;
  std::vector<double> b;
  auto unknown = [&](int k) { // whether rounding decides about this output
    if (b.empty())
      b = blur(r, T, E, most);
    return !(b[k] < 1e-3);
  };
  for (int k = 0; k < 100; k++) {
    std::string wk = w + mc::cat(", output ", k);
    if (E.idx[k] < 0) {
      if (o[k].size() && !unknown(k))
        c.expect(false, "filled", wk + ": more outputs than steps");
      continue;
    }
    const Vec &x = T.u[E.idx[k]];
    bool bad = broken(x);
    if (o[k].size() != x.size() || broken(o[k]) != bad) {
      if (unknown(k))
        continue;
      c.expect(o[k].size() == x.size(), "empty", wk + mc::cat(": empty instead of step ", E.idx[k]));
      c.expect(broken(o[k]) == bad, "broken", wk + (bad ? ": not the failed state" : ": NaN"));
    }
    if (bad)
      continue;
    for (long i = 0; i < x.size(); i++) {
      // the split relaxation divides small strains between the axes only up to their size
      double t = tol < 1e-6 ? tol : i % V >= 5 && i % V < 14 ? 2e-4 : 2e-5;
      if (!(std::abs(o[k](i) - x(i)) <= t) && !unknown(k))
        c.close(o[k](i), x(i), 0, t + 100 * b[k], "output", wk + mc::cat(" (step ", E.idx[k], " of ", T.u.size() - 1, "): cell ", i / V, " variable ", i % V));
    }
  }
}
static VecV at(const Par &m, double x, double p, double vx, double vy, const Mat3_3 &S, double λ = 1) {
  Prim w;
  w.ρ = m.ρ0 * x;
  w.p = base_pressure(w.ρ, m) * p;
  w.v[0] = vx;
  w.v[1] = vy;
  w.v[2] = 0.1;
  w.A = S * cbrt(x / S.determinant());
  w.λ = λ;
  return conserved(w, m);
}
static Par mat(int k) {
  static const int M[] = {AIR, SOLID_GR, WATER, BINGHAM_SG, PLASTIC_GR};
  Par m = mild(M[k]);
  if (MULTI && k) { // mixtures of a reactant and a product
    m = material(EXPL_JWL);
    m.REACTION = 0;
    m.Kc = 0.6;
    m.Ti = 0.1;
    m.Qc = 0.5;
  }
  return m;
}
static Domain domain(mc::Ctx &c) {
  switch (c.choose(4, "domain")) {
  case 0: return line(5, 0.2, B_TRANSMISSIVE, B_TRANSMISSIVE);
  case 1: return line(4, 0.25, B_PERIODIC, B_PERIODIC);
  case 2: return line(6, 0.1, B_SLIP, B_STICK);
  default: return plane(4, 3, 0.25, 0.3, B_PERIODIC, B_PERIODIC, B_SLIP, B_TRANSMISSIVE);
  }
}
// level sets: material 0 left of the first interface, 1 right of it, 2 right of the second
static void levels(VecV &q, double x, const std::vector<double> &ifc) {
  for (int l = 0; l < LSET; l++)
    q(V - LSET + l) = l < (int)ifc.size() ? x - ifc[l] : -2. - l;
}
static Run setup(mc::Ctx &c, std::string &w) {
  Run r;
  r.D = domain(c);
  static const int ST[] = {SPLIT_FULL, SPLIT_HALF, ADER, ADER_STIFF};
  int kind = c.choose(LSET > 0 ? 5 : 3, "materials");
  c.shard();
  r.stepper = ST[c.choose(4, "stepper")];
  r.flux = c.choose(mc::thorough ? 3 : 2, "flux") * (mc::thorough ? 1 : 2);
  std::vector<double> ifc;
  switch (kind) {
  case 0: r.MPs = {mat(0)}; break;
  case 1: r.MPs = {mat(1)}; break;
  case 2: r.MPs = {mat(3)}; break;
  case 3: r.MPs = {mat(1), mat(0)}; ifc = {0.53}; break;
  case 4: r.MPs = {mat(1), vacuum()}; ifc = {0.53}; break;
  }
  if (r.stepper == ADER_STIFF && kind == 2)
    throw mc::Skip();
  int n = r.D.ncell(), ny = r.D.ndim() > 1 ? r.D.nX(1) : 1;
  double X = r.D.nX(0) * r.D.dX(0);
  for (double &x : ifc)
    x *= X;
  r.u = Vec::Zero(n * V);
  for (int i = 0; i < n; i++) {
    double x = (i / ny + 0.5) * r.D.dX(0), y = (i % ny + 0.5);
    VecV q = VecV::Zero();
    levels(q, x, ifc);
    VecV ls = q;
    int m = 0;
    for (int l = 0; l < LSET; l++)
      m += q(V - LSET + l) >= 0;
    if (r.MPs[m].EOS != VACUUM) {
      double s = sin(2 * M_PI * x / X);
      q = at(r.MPs[m], 1 + 0.02 * s, kind == 4 ? 0.05 : 1 + 0.05 * s, 0.05, 0.1 + 0.05 * s + 0.02 * y, shape(3 + i % 2), 0.7 + 0.3 * s);
      if (LSET > 0)
        q.tail<LSET>() = ls.tail<LSET>();
    }
    r.u.segment<V>(i * V) = q;
  }
  w = mc::cat("cells ", r.D.nX.transpose(), " materials ", kind, " ", stepper_name(r.stepper), " ", flux_name(r.flux));
  return r;
}
// the loop is the composition of its parts
static void compose(mc::Ctx &c) {
  std::string w;
  Run r = setup(c, w);
  static const double STEPS[] = {0.1, 3.4, 7.5, 11.6, 1, 6, 24};
  double S = STEPS[c.choose(mc::thorough ? 7 : 4, "length")];
  r.cfl = mc::thorough && c.choose(2, "cfl") ? 0.3 : 0.6;
  static const double TOL[] = {1e9, 0.01, 1e-7};
  r.tol = TOL[c.choose(3, "contorted")];
  // the length in steps, by the speed of the first state
  Run one = r;
  one.tf = 1e6;
  Trace T1 = trace(one, 1);
  double dt = T1.t.size() > 1 ? T1.t[1] / 0.2 : 0;
  c.expect(dt > 0 && std::isfinite(dt), "first", w);
  r.tf = dt * (S <= 6 ? 0.2 * S : 1.2 + (S - 6));
  c.note(w);
  w += mc::cat(" steps ", S, " cfl ", r.cfl, " contorted ", r.tol);
  Trace T = trace(r, 1000);
  if (!T.full && !T.failed)
    throw mc::Skip();
  std::vector<Vec> o = run(c, r, w);
  c.step(T.u.size());
  // the closed form of the split scheme takes roots of differences that may vanish
  compare(c, r, o, T, w, split(r) ? 1 : 1e-8, 1000);
}
// runs that become unstable: at every step, and at every output
static void breakdown(mc::Ctx &c) {
  static const double CFL[] = {1.05, 1.1, 1.3, 2, 4, 1.2, 1.6, 2.6, 8, 20};
  Run r;
  int k = c.choose(mc::thorough ? 10 : 5, "cfl"), two = LSET > 0 ? c.choose(2, "materials") : 0, amp = c.choose(3, "amplitude");
  int st = c.choose(2, "stepper");
  c.shard();
  r.cfl = CFL[k];
  r.stepper = st ? ADER : SPLIT_FULL;
  r.D = line(6, 0.2, B_PERIODIC, B_PERIODIC);
  if (two)
    r.D = line(6, 0.2, B_TRANSMISSIVE, B_TRANSMISSIVE);
  r.MPs = {mat(0)};
  if (two)
    r.MPs.push_back(mat(0));
  r.u = Vec::Zero(6 * V);
  static const double AMP[] = {0.2, 1e-3, 1e-7};
  for (int i = 0; i < 6; i++) {
    double s = (i % 2 ? 1 : -1) * AMP[amp];
    VecV q = at(r.MPs[0], 1 + s, 1 + s, 0.1 * s, 0.1, shape(0)), ls = q;
    levels(ls, i, two ? std::vector<double>{2.6} : std::vector<double>{});
    if (LSET > 0)
      q.tail<LSET>() = ls.tail<LSET>();
    r.u.segment<V>(i * V) = q;
  }
  std::string w = mc::cat("cfl ", r.cfl, " amplitude ", AMP[amp], two ? " two materials " : " ", stepper_name(r.stepper));
  // without an end the run fails at some step
  Run free = r;
  free.tf = 1e300;
  long most = mc::thorough ? 400 : 200;
  Trace F = trace(free, most);
  if (!F.failed)
    throw mc::Skip();
  int last = F.u.size() - 1;
  double tb = F.t[last - 1], te = F.t[last];
  if (!(tb > 0) || !(te > tb) || te > 1e200)
    te = tb + (tb - (last > 1 ? F.t[last - 2] : 0));
  c.note(w + mc::cat(" fails in step ", last));
  // final times such that the failure falls into the first .. last output, is the last step, or just does not happen
  int pos = c.choose(12, "end");
  static const double P[] = {0.001, 0.1, 0.5, 0.9, 0.97, 0.98, 0.985, 0.99, 0.995, 0.999};
  r.tf = pos < 10 ? te / P[pos] : pos == 10 ? tb + 0.5 * (te - tb) : tb;
  w += mc::cat(" fails in step ", last, " at ", te, " of ", r.tf);
  Trace T = trace(r, most + 10);
  if (!T.failed && !T.full)
    throw mc::Skip();
  std::vector<Vec> o = run(c, r, w);
  c.step(T.u.size());
  compare(c, r, o, T, w, 1, most + 10);
}
// a uniform body in a force field tells the time: its momentum is the force times the time
static void clock_(mc::Ctx &c) {
  static const double S[] = {0.3, 0.98, 1.9, 4.97, 5.99, 6.01, 7.1, 8.5, 19.8, 49.7, 93.2, 94.7, 98.8, 99.8, 100.8, 101.8, 104.8, 105.3, 105.9, 107.5, 130, 205.7};
  Run r;
  int k = c.choose(22, "steps"), dom = c.choose(3, "domain"), st = c.choose(2, "stepper"), two = LSET > 0 ? c.choose(2, "materials") : 0, mt = c.choose(2, "material");
  c.shard();
  if ((dom == 2 || mt == 1) && S[k] > 60 && !mc::thorough)
    throw mc::Skip();
  r.stepper = st ? ADER : SPLIT_HALF;
  r.D = dom == 0 ? line(4, 0.25, B_PERIODIC, B_PERIODIC) : dom == 1 ? line(5, 0.2, B_TRANSMISSIVE, B_TRANSMISSIVE) : plane(3, 3, 0.3, 0.4, B_TRANSMISSIVE, B_TRANSMISSIVE, B_PERIODIC, B_PERIODIC);
  r.cfl = 0.45;
  Par m = mat(mt);
  if (MULTI && mt)
    m.REACTION = -1;
  double a = 0.01;
  Vec3 dir = dom == 2 ? Vec3(0, 0, 1) : Vec3(0, 0.6, -0.8);
  m.δp = a * dir;
  r.MPs = {m};
  if (two)
    r.MPs.push_back(m);
  int n = r.D.ncell(), ny = r.D.ndim() > 1 ? r.D.nX(1) : 1;
  r.u = Vec::Zero(n * V);
  for (int i = 0; i < n; i++) {
    VecV q = at(m, 1, 1, 0, 0, shape(0)), ls = q;
    levels(ls, (i / ny + 0.5) * r.D.dX(0), two ? std::vector<double>{0.51 * r.D.nX(0) * r.D.dX(0)} : std::vector<double>{});
    if (LSET > 0)
      q.tail<LSET>() = ls.tail<LSET>();
    r.u.segment<V>(i * V) = q;
  }
  double lam = 0;
  VecV q0 = r.u.head<V>();
  for (int d = 0; d < r.D.ndim(); d++)
    lam += max_abs_eigs(q0, d, m) / r.D.dX(d);
  double dt = r.cfl / lam;
  r.tf = dt * (S[k] <= 6 ? 0.2 * S[k] : 1.2 + (S[k] - 6));
  std::string w = mc::cat("cells ", r.D.nX.transpose(), " steps ", S[k], " ", stepper_name(r.stepper), " materials ", 1 + two, " ", mt);
  c.note(w);
  std::vector<Vec> o = run(c, r, w);
  auto time = [&](const Vec &u, const std::string &wk) {
    double t0 = 0;
    for (int i = 0; i < n; i++) {
      Vec3 p = u.segment<3>(i * V + 2) - q0.segment<3>(2);
      double t = p.dot(dir) / a;
      if (i == 0)
        t0 = t;
      c.close(t, t0, 1e-7, 1e-9 * r.tf, "uniform", wk);
    }
    return t0;
  };
  c.expect(o[99].size() == r.u.size(), "last", w + ": no last output");
  c.close(time(o[99], w + " last output"), r.tf, 1e-7, 0, "end", w + ": time of the last output");
  double before = 0;
  int k0 = 0;
  for (; k0 < 99 && o[k0].size(); k0++) {
    double t = time(o[k0], w + mc::cat(" output ", k0));
    c.expect(t > before * (1 + 1e-9), "order", w + mc::cat(": output ", k0, " at ", t, " after ", before));
    c.expect(t >= (k0 + 1) / 100. * r.tf * (1 - 1e-6), "early", w + mc::cat(": output ", k0, " at ", t, " of ", r.tf));
    // as soon as possible: one step before was too early, or used by the previous output
    bool first = t - 1.001 * dt < (k0 + 1) / 100. * r.tf, next = t - before <= 1.001 * dt;
    c.expect(first || next, "late", w + mc::cat(": output ", k0, " at ", t, " of ", r.tf));
    before = t;
  }
  for (int k1 = k0; k1 < 99; k1++)
    c.expect(o[k1].size() == 0, "gap", w + mc::cat(": output ", k1, " follows an empty one"));
  // as many as there are steps
  double steps = std::ceil(S[k] - 1e-6);
  if (steps < 90)
    c.expect(std::abs(k0 - steps) <= 1 + 0.1 * steps || k0 == 99, "count", w + mc::cat(": ", k0, " outputs in ", steps, " steps"));
}
int main(int argc, char **argv) {
  std::vector<mc::Scenario> s;
  s.push_back({"clock", clock_, 30});
  s.push_back({"compose", compose, 30});
  s.push_back({"breakdown", breakdown, 60});
  return mc::main_(argc, argv, s);
}
