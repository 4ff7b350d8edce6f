// P02: the mask of cells that need a predictor
#include "gpr.h"
#include "src/etc/grid.h"
using namespace gpr;

static void line(mc::Ctx &c) {
  int n = 1 + c.choose(mc::thorough ? 14 : 11, "cells");
  bVec mask(n);
  for (int i = 0; i < n; i++) {
    mask(i) = c.choose(2, "masked");
    if (i == std::min(n - 1, 4))
      c.shard();
  }
  Guarded<bVec> m(mask), mb(n + 2);
  iVec nX = ivec({n});
  extend_mask(m.seg(), mb.seg(), nX);
  c.step();
  bVec r = mb.get();
  c.state_of(r);
  c.expect(same_bits(m.get(), mask) && m.intact() && mb.intact(), "bounds", "written outside of the extended mask");
  auto at = [&](int i) { return i >= 0 && i < n && mask(i); };
  for (int i = -1; i <= n; i++) {
    unsigned char b = ((unsigned char *)r.data())[i + 1];
    c.expect(b <= 1, "unset", mc::cat("cell ", i, " was not written"));
    bool need = at(i - 1) || at(i) || at(i + 1), inside = i >= 0 && i < n;
    if (need)
      c.expect(b, "missing", mc::cat("cell ", i, " is needed"));
    else if (inside)
      c.expect(!b, "extra", mc::cat("cell ", i, " is not needed"));
  }
}

static void plane(mc::Ctx &c) {
  static const int SH[][2] = {{1, 1}, {1, 2}, {2, 1}, {2, 2}, {1, 5}, {5, 1}, {2, 3}, {3, 2}, {3, 3}, {2, 5}, {5, 2}, {3, 4}, {4, 3}, {3, 5}, {5, 3}, {4, 4}, {2, 8}};
  int sh = c.choose(mc::thorough ? 17 : 13, "shape");
  int nx = SH[sh][0], ny = SH[sh][1];
  bVec mask(nx * ny);
  for (int i = 0; i < nx * ny; i++) {
    mask(i) = c.choose(2, "masked");
    if (i == std::min(nx * ny - 1, 4))
      c.shard();
  }
  Guarded<bVec> m(mask), mb((nx + 2) * (ny + 2));
  iVec nX = ivec({nx, ny});
  extend_mask(m.seg(), mb.seg(), nX);
  c.step();
  bVec r = mb.get();
  c.state_of(r);
  c.expect(same_bits(m.get(), mask) && m.intact() && mb.intact(), "bounds", "written outside of the extended mask");
  auto at = [&](int i, int j) { return i >= 0 && i < nx && j >= 0 && j < ny && mask(i * ny + j); };
  for (int i = -1; i <= nx; i++)
    for (int j = -1; j <= ny; j++) {
      unsigned char b = ((unsigned char *)r.data())[(i + 1) * (ny + 2) + j + 1];
      c.expect(b <= 1, "unset", mc::cat("cell ", i, ",", j, " was not written"));
      bool need = at(i, j) || at(i - 1, j) || at(i + 1, j) || at(i, j - 1) || at(i, j + 1);
      bool ix = i >= 0 && i < nx, iy = j >= 0 && j < ny;
      if (need)
        c.expect(b, "missing", mc::cat("cell ", i, ",", j, " is needed"));
      else if (ix && iy)
        c.expect(!b, "extra", mc::cat("cell ", i, ",", j, " is not needed"));
      if (!ix && !iy)
        c.expect(!b, "corner", mc::cat("corner ", i, ",", j, " is selected"));
    }
}

int main(int argc, char **argv) { return mc::main_(argc, argv, {{"line", line}, {"plane", plane}}); }
