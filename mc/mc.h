// A small stateless model checker: a harness is a function body(Ctx&) that asks
// for every nondeterministic answer with c.choose(n,"label").  explore() runs the
// body once for every sequence of answers (depth-first, complete), on the real
// code that is linked in, in forked workers that survive crashes of that code.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <string>
#include <vector>
#include <sstream>
#include <iomanip>

namespace mc {

struct Skip {};
struct Fail {
  std::string key, msg;
};

inline uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
  const unsigned char *c = (const unsigned char *)p;
  for (size_t i = 0; i < n; i++) {
    h ^= c[i];
    h *= 1099511628211ull;
  }
  return h;
}

struct Ctx {
  // choice 0..n-1
  int choose(int n, const char *label);
  // everything chosen so far decides which worker owns this execution
  void shard();
  // a state of the system under test was reached / one real operation was run
  void state(uint64_t h);
  template <class T> void state_of(const T &m) {
    state(fnv(m.data(), sizeof(typename T::Scalar) * m.size(), scen_hash));
  }
  void step(uint64_t n = 1);
  // one comparison with the oracle
  void evals(uint64_t n = 1);
  void outcome(uint64_t h);
  // describe the current execution (for samples and counterexamples)
  void note(const std::string &s);
  [[noreturn]] void fail(const std::string &key, const std::string &msg);
  void expect(bool ok, const std::string &key, const std::string &msg) {
    evals();
    if (!ok)
      fail(key, msg);
  }
  // |a-b| <= atol + rtol*max(|a|,|b|), NaN never passes
  void close(double a, double b, double rtol, double atol, const std::string &key,
             const std::string &what) {
    evals();
    double d = std::abs(a - b);
    if (!(d <= atol + rtol * std::max(std::abs(a), std::abs(b)))) {
      std::ostringstream o;
      o << std::setprecision(17) << what << ": got " << a << " expected " << b;
      fail(key, o.str());
    }
  }
  template <class A, class B>
  void close_all(const A &a, const B &b, double rtol, double scale_atol,
                 const std::string &key, const std::string &what) {
    evals();
    if (a.size() != b.size())
      fail(key, what + ": sizes differ");
    double sc = 0;
    for (long i = 0; i < b.size(); i++)
      if (std::isfinite(b.data()[i]))
        sc = std::max(sc, std::abs((double)b.data()[i]));
    for (long i = 0; i < b.size(); i++) {
      double x = a.data()[i], y = b.data()[i];
      if (!(std::abs(x - y) <=
            scale_atol * sc + rtol * std::max(std::abs(x), std::abs(y)))) {
        std::ostringstream o;
        o << std::setprecision(17) << what << ": entry " << i << " got " << x
          << " expected " << y;
        fail(key, o.str());
      }
    }
  }
  bool replaying = false;
  uint64_t scen_hash = 1469598103934665603ull;
};

typedef std::function<void(Ctx &)> Body;
// scenarios are explored one after the other; argv: --out F --workers W --replay F --tier T
struct Scenario {
  std::string name;
  Body body;
  double exec_limit_s = 30;
};
extern bool thorough;
int main_(int argc, char **argv, std::vector<Scenario> scen);

template <class... T> std::string cat(const T &...t) {
  std::ostringstream o;
  o << std::setprecision(17);
  (o << ... << t);
  return o.str();
}
} // namespace mc
