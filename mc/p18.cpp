// P18: ghost cells of the materials, for every arrangement of the materials
#include "levelset.h"
#include "src/multi/fill.h"
#include "src/multi/functions.h"
#include "src/multi/pfmm.h"
#include "src/system/functions/vectors.h"
#include "src/system/multi/riemann.h"
using namespace gpr;

// pairs and triples of materials; state 0 is in equilibrium with every other material's state 0
static Par calm(int k) {
  Par m = k == 0 ? material(AIR) : k == 1 ? material(WATER) : material(POWER_SG);
  if (k == 2) {
    m.POWER_LAW = false;
    m.γ = 1.9;
    m.ρ0 = 1.7;
  }
  return m;
}
static VecV rest_state(const Par &m, double f) {
  Prim w;
  w.ρ = m.ρ0 * f;
  w.p = 1;
  w.A *= cbrt(f);
  w.v[0] = 0.2;
  w.v[1] = -0.3;
  w.v[2] = 0.1;
  return conserved(w, m);
}
struct Case {
  iVec nX;
  aVec dX;
  int n;
  std::vector<Par> MPs;
  std::vector<int> id;
  Vec u;
  std::string text;
};
struct Filled {
  std::vector<Vec> g;
  std::vector<bVec> mask;
  Vec u;
};
static Filled run(mc::Ctx &c, Case &k, double dt) {
  Filled f;
  int nm = k.MPs.size();
  f.u = k.u;
  f.g.assign(nm, Vec(k.n * V));
  f.mask.assign(nm, bVec(k.n));
  for (auto &g : f.g)
    memset((void *)g.data(), 0xFF, g.size() * 8);
  iVec nX = k.nX;
  auto MPs = k.MPs;
  fill_ghost_cells(f.g, f.mask, f.u, nX, k.dX, dt, MPs);
  c.step();
  return f;
}
// where the state of a first-row ghost cell may come from
struct Source {
  int L, R;
  Vec n;
};
static int locate(const Case &k, const aVec &x) {
  int r = 0;
  for (int a = 0; a < k.nX.size(); a++)
    r = r * k.nX(a) + std::max(0, std::min(k.nX(a) - 1, (int)std::floor(x(a) / k.dX(a))));
  return r;
}
static std::vector<Source> sources(const Case &k, const Cells &C, int mat, int i, double phi, const Vec &grad, const std::vector<int> &own, const std::vector<int> &mark, double e) {
  int nd = k.nX.size();
  std::vector<Source> r;
  auto dir = [&](int s) {
    Vec n(nd);
    n(0) = i / C.ny - s / C.ny;
    if (nd > 1)
      n(1) = i % C.ny - s % C.ny;
    return n;
  };
  std::vector<int> nb;
  for (int a = 0; a < nd; a++)
    for (int s = -1; s < 2; s += 2)
      if (C.next(i, a, s) >= 0 && own[C.next(i, a, s)])
        nb.push_back(C.next(i, a, s));
  std::vector<Vec> ns;
  if (grad.norm() > 0)
    ns.push_back(grad / grad.norm());
  else
    for (int s : nb)
      if (mark[s] == -1)
        ns.push_back(dir(s));
  for (auto &n : ns)
    for (int q = 0; q < (e > 0 ? 1 << (3 * nd) : 1); q++) { // cells touching each of the three points
      aVec x(nd);
      x(0) = (i / C.ny + 0.5) * k.dX(0);
      if (nd > 1)
        x(1) = (i % C.ny + 0.5) * k.dX(1);
      int bit = 0;
      auto at = [&](aVec p) {
        for (int a = 0; a < nd; a++)
          p(a) += (q >> bit++ & 1 ? 1 : -1) * e * k.dX(a);
        return locate(k, p);
      };
      aVec na = n.array();
      int I = at(x - phi * na), L = at(x - phi * na - k.dX * na), R = at(x - phi * na + k.dX * na);
      if (own[I])
        r.push_back({I, R, n});
      else if (own[L])
        r.push_back({L, R, n});
      else
        for (int s : nb)
          r.push_back({s, R, dir(s)});
    }
  return r;
}
static bool alike(const VecV &a, const VecV &b, double tol) {
  return (a - b).head<V - LSET>().cwiseAbs().maxCoeff() <= tol * std::max(1., b.head<V - LSET>().cwiseAbs().maxCoeff());
}
// everything that must hold of a filled case
static void check(mc::Ctx &c, Case k, bool equilibrium, double dt) {
  c.note(k.text);
  Cells C(k.nX, k.dX);
  int nm = k.MPs.size(), n = k.n;
  Filled f = run(c, k, dt);
  // all that may change in the common grid: distances instead of level sets
  Mat want = Eigen::Map<const Mat>(k.u.data(), n, V);
  iVec nX = k.nX;
  renormalize_levelsets(want, k.dX, nX);
  c.close_all(f.u, Eigen::Map<const Vec>(want.data(), n * V), 0, 0, "common", k.text + ": common grid");
  for (int m = 0; m < nm; m++) {
    std::string w = mc::cat(k.text, ": material ", m);
    if (k.MPs[m].EOS == VACUUM) {
      c.expect(f.mask[m].size() == n && !f.mask[m].any(), "vacuum", w + ": cells of the vacuum are selected");
      continue;
    }
    c.state_of(f.g[m]);
    std::vector<int> own(n), mark(n);
    for (int i = 0; i < n; i++)
      own[i] = k.id[i] == m;
    for (int i = 0; i < n; i++) {
      int same = 0;
      for (int a = 0; a < C.naxis(); a++)
        for (int s = -1; s < 2; s += 2)
          same += C.next(i, a, s) >= 0 && own[C.next(i, a, s)];
      mark[i] = own[i] && C.two && !same ? -2 : 0;
    }
    for (int i = 0; i < n; i++)
      for (int a = 0; a < C.naxis(); a++)
        for (int s = -1; s < 2; s += 2) {
          int q = C.next(i, a, s);
          if (q >= 0 && own[i] && !own[q] && mark[i] != -2) {
            mark[i] = -1;
            mark[q] = 1;
          }
        }
    // cells that rows of ghost cells spread to
    std::vector<int> row(n, 0);
    for (int i = 0; i < n; i++)
      row[i] = mark[i] == 1;
    bool more = true;
    for (int r = 1; more && r < 10 * N; r++) {
      more = false;
      for (int i = 0; i < n; i++)
        if (!row[i] && !own[i])
          for (int a = 0; a < C.naxis(); a++)
            for (int s = -1; s < 2; s += 2)
              if (C.next(i, a, s) >= 0 && row[C.next(i, a, s)] == r) {
                row[i] = r + 1;
                more = true;
              }
    }
    bool isolates = false;
    for (int x : mark)
      isolates |= x == -2;
    Vec phi(n);
    Mat grad(n, k.nX.size());
    Mat uu = want;
    material_indicator(phi, uu, m, nm, k.dX, nX);
    Vec p2 = phi;
    finite_difference(grad, p2, k.dX, nX);
    for (int i = 0; i < n; i++) {
      VecV q = f.g[m].segment<V>(i * V);
      std::string wi = w + mc::cat(", cell ", i);
      bool sel = (own[i] && mark[i] != -2) || mark[i] == 1;
      c.expect(f.mask[m](i) == sel, "selected", wi + (sel ? " should be updated" : " should not be updated"));
      c.expect((q.tail<LSET>() - want.row(i).tail<LSET>().transpose()).isZero(0.), "level-set", wi + ": level set was changed");
      VecV orig = k.u.segment<V>(i * V);
      if (own[i] && mark[i] != -2)
        c.expect((q - orig).head<V - LSET>().isZero(0.), "own", wi + ": a cell of the material itself was changed");
      else if (mark[i] == -2) {
        bool ok = alike(q, orig, 0);
        for (int j = 0; j < n && !ok; j++)
          ok = row[j] == 1 && alike(q, f.g[m].segment<V>(j * V), 0);
        c.expect(ok, "isolated", wi + ": an isolated cell holds neither its state nor that of a ghost cell");
      } else if (row[i] == 1) {
        c.expect(finite(q), "finite", wi + ": ghost cell is not finite");
        bool ok = false;
        std::string seen;
        for (int pass = 0; pass < 2 && !ok; pass++)
          for (auto &s : sources(k, C, m, i, phi(i), grad.row(i).transpose(), own, mark, pass * 1e-7)) {
            VecV ql = k.u.segment<V>(s.L * V), qr = k.u.segment<V>(s.R * V), st;
            if (equilibrium)
              st = ql;
            else {
              Vec nn = s.n;
              Par ml = k.MPs[m], mr = k.MPs[k.id[s.R]];
              st = left_star_state(ql, qr, ml, mr, dt, nn);
            }
            ok = alike(q, st, equilibrium ? 1e-9 : 1e-10);
            seen += mc::cat(" ", s.L, "/", s.R);
            if (ok)
              break;
          }
        c.expect(ok, equilibrium ? "first-row" : "star", wi + mc::cat(": the ghost state with density ", q(0), " does not follow from the cells on both sides of the interface:", seen));
      } else if (row[i] > 1) {
        c.expect(finite(q), "finite", wi + ": ghost cell is not finite");
        bool ok = false;
        for (int j = 0; j < n && !ok; j++)
          ok = j != i && row[j] && std::abs(i / C.ny - j / C.ny) <= 1 && std::abs(i % C.ny - j % C.ny) <= 1 && alike(q, f.g[m].segment<V>(j * V), 0);
        // isolated cells pass states on, and are filled again later
        for (int j = 0; j < n && !ok && isolates; j++)
          ok = row[j] == 1 && alike(q, f.g[m].segment<V>(j * V), 0);
        c.expect(ok, "band", wi + ": a ghost cell holds the state of none of the ghost cells around it");
      } else
        c.expect(alike(q, orig, 0), "untouched", wi + ": a cell out of reach was changed");
    }
  }
}
static Case make(mc::Ctx &c, int nx, int ny, int nmat, bool zeros, int shardat, bool equilibrium, std::vector<Par> MPs) {
  Case k;
  k.nX = ny ? ivec({nx, ny}) : ivec({nx});
  k.dX = ny ? avec({0.5, 0.5}) : avec({0.4});
  k.n = nx * std::max(1, ny);
  k.MPs = MPs;
  k.u.resize(k.n * V);
  k.text = mc::cat("cells ", k.nX.transpose(), " materials ");
  for (int i = 0; i < k.n; i++) {
    int a = c.choose(zeros ? nmat + 1 : nmat, "material of cell");
    bool zero = a == nmat; // the second material, exactly on the interface
    int id = zero ? 1 : a;
    k.id.push_back(id);
    k.text += mc::cat(id, zero ? "o" : "");
    if (i == shardat)
      c.shard();
    VecV q;
    if (equilibrium)
      q = rest_state(k.MPs[id], 1 + 0.03 * i);
    else if (k.MPs[id].EOS == VACUUM)
      q.setZero();
    else {
      VecV s = grid_state(k.MPs[id], 0), b = grid_state(k.MPs[id], 1 + (i * 2 + id) % 3, 0.6);
      q = s + (0.1 + 0.07 * (i % 5)) * (b - s);
    }
    for (int l = 0; l < LSET; l++)
      q(V - LSET + l) = (l < id ? 1 : -1) * (0.2 + 0.05 * ((i * 3 + l) % 4)) * (l >= nmat - 1 ? 3 : 1);
    if (zero)
      q(V - LSET) = 0;
    k.u.segment<V>(i * V) = q;
  }
  return k;
}
static void line_(mc::Ctx &c) {
  int n = 3 + c.choose(mc::thorough ? 8 : 7, "cells");
  check(c, make(c, n, 0, 2, true, 2, true, {calm(0), calm(1)}), true, 0.01);
}
static void plane_(mc::Ctx &c) {
  static const int S[][3] = {{3, 3, 1}, {3, 4, 0}, {4, 3, 0}, {3, 5, 0}, {4, 4, 0}, {3, 4, 1}};
  int s = c.choose(mc::thorough ? 6 : 5, "shape");
  check(c, make(c, S[s][0], S[s][1], 2, S[s][2], 3, true, {calm(0), calm(1)}), true, 0.01);
}
static void three(mc::Ctx &c) {
  bool flat = c.choose(2, "dimensions") == 0;
  if (flat)
    check(c, make(c, 3 + c.choose(mc::thorough ? 6 : 4, "cells"), 0, 3, false, 2, true, {calm(0), calm(1), calm(2)}), true, 0.01);
  else
    check(c, make(c, 3, 3, 3, false, 3, true, {calm(0), calm(1), calm(2)}), true, 0.01);
}
// materials that are not in equilibrium
static void jumps(mc::Ctx &c) {
  static const int P[][2] = {{AIR, WATER}, {AIR, SOLID_SMG}, {SOLID_GR, EXPL_CC}, {SOLID_SMG, -1}, {-1, AIR}};
  int p = c.choose(mc::thorough ? 5 : 5, "pair");
  std::vector<Par> MPs;
  for (int i = 0; i < 2; i++)
    MPs.push_back(P[p][i] < 0 ? vacuum() : mild(P[p][i]));
  int d = c.choose(2, "dimensions");
  Case k;
  if (d == 0)
    k = make(c, 3 + c.choose(mc::thorough ? 5 : 4, "cells"), 0, 2, false, 2, false, MPs);
  else
    k = make(c, 3, 3, 2, false, 3, false, MPs);
  k.text = mc::cat("pair ", p, " ", k.text);
  check(c, k, false, 0.02);
}
// larger domains divided by straight and round interfaces
static void shapes(mc::Ctx &c) {
  int N0 = mc::thorough ? 9 : 7, nx = N0, ny = N0 - 1 + c.choose(2, "rows");
  int kind = c.choose(4, "shape"), off = c.choose(mc::thorough ? 12 : 7, "position");
  bool flip = c.choose(2, "sides"), eq = !THERMAL && c.choose(2, "equilibrium");
  double fine = c.choose(2, "between cells") ? 0.25 : 0;
  c.shard();
  Case k;
  k.nX = ivec({nx, ny});
  k.dX = avec({0.5, 0.5});
  k.n = nx * ny;
  k.MPs = {mild(AIR), mild(SOLID_SMG)};
  if (eq)
    k.MPs = {calm(0), calm(1)};
  k.u.resize(k.n * V);
  k.text = mc::cat("cells ", nx, " ", ny, " shape ", kind, " position ", off, fine ? "+1/4" : "", flip ? " flipped" : "");
  for (int i = 0; i < k.n; i++) {
    double x = i / ny, y = i % ny, f;
    double pos = off + fine;
    switch (kind) {
    case 0: f = x - pos + 0.3; break;
    case 1: f = y - pos + 0.3; break;
    case 2: f = (x + y - pos - 1.2) / sqrt(2.); break;
    default: f = 1.3 + 0.3 * pos / 2 - sqrt((x - nx / 2.3) * (x - nx / 2.3) + (y - ny / 2.1) * (y - ny / 2.1)); break;
    }
    if (flip)
      f = -f;
    f *= 0.5;
    int id = f >= 0;
    k.id.push_back(id);
    VecV q;
    if (eq)
      q = rest_state(k.MPs[id], 1 + 0.01 * i);
    else {
      VecV s = grid_state(k.MPs[id], 0), b = grid_state(k.MPs[id], 1 + (i * 2 + id) % 3, 0.6);
      q = s + (0.1 + 0.07 * (i % 5)) * (b - s);
    }
    for (int l = 0; l < LSET; l++)
      q(V - LSET + l) = l ? -3 - l : f;
    k.u.segment<V>(i * V) = q;
  }
  check(c, k, eq, 0.02);
}
int main(int argc, char **argv) {
  std::vector<mc::Scenario> s;
  // with heat conduction, states of equal pressure are not in equilibrium
  if (!THERMAL) {
    s.push_back({"line", line_, 20});
    s.push_back({"plane", plane_, 20});
  }
  if (LSET > 1 && !THERMAL)
    s.push_back({"three", three, 20});
  s.push_back({"jumps", jumps, 20});
  s.push_back({"shapes", shapes, 20});
  return mc::main_(argc, argv, s);
}
