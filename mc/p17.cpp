// P17: the marcher's priority queue, for every history of operations
#include "gpr.h"
#include "skfmm/heap.h"
#include <map>
using namespace gpr;

static const double VALUE[] = {1, 2, 0, 3, 2.5, 0.5};
// one history: alphabet of values, number of elements, depth
static void history(mc::Ctx &c, int nvalue, int cap, int depth, bool peeks) {
  bool self = c.choose(2, "self test");
  heap h(cap, self);
  std::map<int, double> live; // handle -> value
  std::vector<int> handles;
  int pushed = 0;
  std::string w = mc::cat("capacity ", cap);
  bool sharded = false;
  auto top = [&]() {
    double m = live.begin()->second;
    for (auto &x : live)
      m = std::min(m, x.second);
    return m;
  };
  auto take = [&]() {
    int addr = -7;
    double val = -7;
    h.pop(&addr, &val);
    c.step();
    int hd = (addr - 1000) / 7;
    c.expect((addr - 1000) % 7 == 0 && live.count(hd), "identity", w + mc::cat(": popped address ", addr, " which is not in the queue"));
    c.expect(val == live[hd], "value", w + mc::cat(": popped value ", val, " of an element with value ", live[hd]));
    c.expect(val == top(), "smallest", w + mc::cat(": popped value ", val, ", the smallest is ", top()));
    live.erase(hd);
  };
  for (int s = 0; s < depth; s++) {
    c.expect(h.empty() == live.empty(), "empty", w + ": empty() is wrong");
    if (peeks && !live.empty())
      c.expect(h.peek() == top(), "peek", w + mc::cat(": peek is ", h.peek(), ", the smallest ", top()));
    handles.clear();
    for (auto &x : live)
      handles.push_back(x.first);
    int npush = pushed < cap ? nvalue : 0, nset = handles.size() * nvalue, npop = handles.size() ? 1 : 0;
    if (npush + nset + npop == 0)
      break;
    int k = c.choose(npush + nset + npop, "operation");
    if (s == 2 && !sharded) {
      c.shard();
      sharded = true;
    }
    if (k < npush) {
      w += mc::cat(" push ", VALUE[k]);
      int hd = h.push(1000 + 7 * pushed, VALUE[k]);
      c.step();
      c.expect(hd == pushed, "handle", w + mc::cat(": handle ", hd, " of element ", pushed));
      live[hd] = VALUE[k];
      pushed++;
    } else if (k < npush + nset) {
      int e = handles[(k - npush) / nvalue];
      double v = VALUE[(k - npush) % nvalue];
      if (v == live[e]) // nothing to do: another branch's history
        throw mc::Skip();
      w += mc::cat(" set ", e, " to ", v);
      h.set(e, v);
      c.step();
      live[e] = v;
    } else {
      w += " pop";
      take();
    }
    uint64_t st = c.scen_hash;
    for (auto &x : live) {
      st = mc::fnv(&x.first, 4, st);
      st = mc::fnv(&x.second, 8, st);
    }
    c.state(st);
  }
  c.note(w);
  w += " then drain";
  while (!live.empty())
    take();
  c.expect(h.empty(), "empty", w + ": not empty");
  bool threw = false;
  try {
    int a;
    double v;
    h.pop(&a, &v);
  } catch (const std::exception &) {
    threw = true;
  }
  c.expect(threw, "underflow", w + ": popping from the empty queue is no error");
  try {
    threw = false;
    h.peek();
  } catch (const std::exception &) {
    threw = true;
  }
  c.expect(threw, "underflow", w + ": the top of the empty queue is no error");
}
// larger queues: every order of insertion, then one change, then drain
static void orders(mc::Ctx &c) {
  int n = mc::thorough ? 8 : 7;
  heap h(n, false);
  std::vector<int> free_;
  for (int i = 0; i < n; i++)
    free_.push_back(i);
  std::vector<double> val;
  std::string w = "values";
  for (int i = 0; i < n; i++) {
    int k = c.choose(free_.size(), "value");
    if (i == 2)
      c.shard();
    val.push_back(free_[k]);
    h.push(i, free_[k]);
    w += mc::cat(" ", free_[k]);
    free_.erase(free_.begin() + k);
  }
  int e = c.choose(n, "element"), v = c.choose(n + 1, "new value");
  val[e] = v - 0.5;
  h.set(e, v - 0.5);
  w += mc::cat(", element ", e, " to ", v - 0.5);
  c.note(w);
  c.step(n + 1);
  std::vector<bool> gone(n, false);
  for (int i = 0; i < n; i++) {
    int a;
    double x, m = 1e9;
    h.pop(&a, &x);
    c.step();
    for (int j = 0; j < n; j++)
      if (!gone[j])
        m = std::min(m, val[j]);
    c.expect(a >= 0 && a < n && !gone[a] && x == val[a] && x == m, "order", w + mc::cat(": pop ", i, " gave element ", a, " value ", x, ", the smallest is ", m));
    gone[a] = true;
  }
  c.expect(h.empty(), "empty", w + ": not empty");
}
// long queues with structure: ascending, descending, alternating, equal, with one change each
static void large(mc::Ctx &c) {
  int n = 10 + c.choose(mc::thorough ? 60 : 30, "size"), kind = c.choose(6, "kind"), ch = c.choose(4, "changes");
  c.shard();
  heap h(n, true);
  std::vector<double> val(n);
  for (int i = 0; i < n; i++) {
    val[i] = kind == 0 ? i : kind == 1 ? n - i : kind == 2 ? (i % 2 ? i : n - i) : kind == 3 ? 1 : kind == 4 ? (i * 7) % 11 : (i * 13) % n;
    h.push(i, val[i]);
  }
  std::vector<bool> gone(n, false);
  int left = n;
  for (int s = 0; left; s++) {
    if (ch && s % ch == 0) {
      int e = (s * 5 + 3) % n;
      if (!gone[e]) {
        val[e] = ch == 1 ? val[e] / 2 : ch == 2 ? val[e] + 3.5 : (s % 2 ? -s : n - s);
        h.set(e, val[e]);
      }
    }
    int a;
    double x, m = 1e9;
    h.pop(&a, &x);
    c.step();
    left--;
    for (int j = 0; j < n; j++)
      if (!gone[j])
        m = std::min(m, val[j]);
    c.expect(a >= 0 && a < n && !gone[a] && x == val[a] && x == m, "order", mc::cat("kind ", kind, " changes ", ch, " size ", n, ": pop ", s, " gave element ", a, " value ", x, ", the smallest is ", m));
    gone[a] = true;
  }
  c.expect(h.empty(), "empty", "not empty");
}
int main(int argc, char **argv) {
  return mc::main_(argc, argv, {{"three", [](mc::Ctx &c) { history(c, 3, 3, mc::thorough ? 8 : 7, true); }, 20},
                                {"four", [](mc::Ctx &c) { history(c, 2, 5, mc::thorough ? 9 : 8, false); }, 20},
                                {"orders", orders, 20}, {"large", large, 20}});
}
