#include "mc.h"
#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

namespace mc {
bool thorough = false;

static const int MAXT = 4096;
struct Shared { // one per worker, survives its death
  volatile int len;
  volatile int choice[MAXT];
  volatile int width[MAXT];
  volatile uint64_t execs, steps, evals;
  volatile int running; // inside an owned execution
  char note[4096];
};

struct Explorer {
  std::vector<int> choice, width;
  std::vector<std::string> label;
  size_t pos = 0;
  int worker = 0, workers = 1;
  bool owned = true, sharded = false;
  std::unordered_set<uint64_t> states, outcomes;
  bool state_cap = false;
  Shared *sh = nullptr;
  std::string note;
  bool fixed = false; // replay: choices are given
};
static Explorer *E;

// Once something failed there is nothing to gain from exhausting the rest: the workers
// go on for a while, for more failures to show, and stop.
struct Common {
  volatile double found; // when the first failure (not a known one) was seen
};
static Common *G;
static const double GRACE = 30;
static double deadline = 0; // of the whole run, if there is one
static std::set<std::string> known_keys;

static double now() {
  struct timespec t;
  clock_gettime(CLOCK_REALTIME, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
static void saw_failure(const std::string &key) {
  if (G && G->found == 0 && !known_keys.count(key))
    G->found = now();
}
static bool enough() {
  return (G && G->found != 0 && now() > G->found + GRACE) ||
         (deadline != 0 && now() > deadline);
}

[[noreturn]] static void harness_error(const std::string &s) {
  fprintf(stderr, "HARNESS ERROR: %s\n", s.c_str());
  _exit(99);
}

int Ctx::choose(int n, const char *label) {
  if (n < 1)
    harness_error(std::string("choose(0) at ") + label);
  if (E->pos < E->choice.size()) {
    if (E->width[E->pos] != n && E->width[E->pos] != 0)
      harness_error(std::string("diverged while replaying a prefix, at ") + label);
    E->width[E->pos] = n;
  } else {
    E->choice.push_back(0);
    E->width.push_back(n);
  }
  if (E->label.size() <= E->pos)
    E->label.resize(E->pos + 1);
  E->label[E->pos] = label;
  int c = E->choice[E->pos];
  if (c >= n)
    harness_error(std::string("choice out of range at ") + label);
  if (E->sh && E->pos < MAXT) {
    E->sh->choice[E->pos] = c;
    E->sh->width[E->pos] = n;
    E->sh->len = E->pos + 1;
  }
  scen_hash = fnv(&c, sizeof c, scen_hash);
  E->pos++;
  return c;
}

void Ctx::shard() {
  if (E->fixed || E->sharded)
    return;
  E->sharded = true;
  uint64_t h = 0x9e3779b97f4a7c15ull;
  for (size_t i = 0; i < E->pos; i++) {
    h ^= (uint64_t)(E->choice[i] + 1) * 0xbf58476d1ce4e5b9ull;
    h = (h ^ (h >> 29)) * 0x94d049bb133111ebull;
    h ^= h >> 32;
  }
  if ((int)(h % E->workers) != E->worker)
    throw Skip();
}
void Ctx::state(uint64_t h) {
  if (E->states.size() < 3000000)
    E->states.insert(h);
  else
    E->state_cap = true;
}
void Ctx::outcome(uint64_t h) {
  if (E->outcomes.size() < 3000000)
    E->outcomes.insert(h);
}
void Ctx::step(uint64_t n) {
  if (E->sh)
    E->sh->steps += n;
}
void Ctx::evals(uint64_t n) {
  if (E->sh)
    E->sh->evals += n;
}
void Ctx::note(const std::string &s) {
  E->note += (E->note.empty() ? "" : "; ") + s;
  if (E->sh) {
    strncpy(E->sh->note, E->note.c_str(), sizeof E->sh->note - 1);
  }
}
void Ctx::fail(const std::string &key, const std::string &msg) {
  throw Fail{key, msg};
}

static void on_alarm(int) { _exit(97); }

static std::string esc(const std::string &s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += c;
    } else if (c == '\n')
      r += "\\n";
    else if (c < 32)
      r += ' ';
    else
      r += c;
  }
  return r;
}

struct Found {
  int scen;
  std::string key, msg, note;
  std::vector<int> choice;
  std::vector<std::string> label;
};

// one execution; returns true if it failed
static bool execute(const Scenario &s, int si, Found &f, bool &skipped) {
  Ctx c;
  c.replaying = E->fixed;
  c.scen_hash = fnv(s.name.data(), s.name.size());
  E->pos = 0;
  E->sharded = false;
  E->note.clear();
  E->label.clear();
  skipped = false;
  if (E->sh)
    E->sh->note[0] = 0;
  bool failed = false;
  uint64_t steps0 = E->sh ? E->sh->steps : 0, evals0 = E->sh ? E->sh->evals : 0;
  try {
    s.body(c);
  } catch (Skip &) {
    skipped = true;
  } catch (Fail &x) {
    failed = true;
    f.key = x.key;
    f.msg = x.msg;
  } catch (const char *x) {
    failed = true;
    f.key = "throw";
    f.msg = std::string("the code under test threw: ") + x;
  } catch (std::exception &x) {
    failed = true;
    f.key = "throw";
    f.msg = std::string("the code under test threw: ") + x.what();
  }
  // an execution that made no shard decision belongs to worker 0
  if (!skipped && !E->sharded && !E->fixed && E->worker != 0) {
    skipped = true;
    failed = false;
    if (E->sh) { // counted by worker 0
      E->sh->steps = steps0;
      E->sh->evals = evals0;
    }
  }
  E->choice.resize(E->pos);
  E->width.resize(E->pos);
  if (failed) {
    f.scen = si;
    f.note = E->note;
    f.choice = E->choice;
    f.label = E->label;
  }
  return failed;
}

static bool advance() {
  while (!E->choice.empty() && E->choice.back() + 1 >= E->width.back()) {
    E->choice.pop_back();
    E->width.pop_back();
  }
  if (E->choice.empty())
    return false;
  E->choice.back()++;
  return true;
}

static void write_found(FILE *o, const Found &f) {
  fprintf(o, "FOUND\t%d\t%s\t", f.scen, esc(f.key).c_str());
  for (size_t i = 0; i < f.choice.size(); i++)
    fprintf(o, "%s%d", i ? "," : "", f.choice[i]);
  fprintf(o, "\t%s\t", esc(f.msg).c_str());
  for (size_t i = 0; i < f.choice.size(); i++)
    fprintf(o, "%s%s=%d", i ? " " : "",
            i < f.label.size() ? f.label[i].c_str() : "?", f.choice[i]);
  fprintf(o, "\t%s\n", esc(f.note).c_str());
  fflush(o);
}

// run one scenario in this (worker) process
static void worker_main(const Scenario &s, int si, int w, int W, Shared *sh,
                        const std::string &base,
                        const std::vector<int> &startc,
                        const std::vector<int> &startw) {
  Explorer ex;
  E = &ex;
  ex.worker = w;
  ex.workers = W;
  ex.sh = sh;
  ex.choice = startc;
  ex.width = startw;
  signal(SIGALRM, on_alarm);
  FILE *o = fopen(base.c_str(), "a");
  std::map<std::string, int> seen;
  bool more = true;
  if (!startc.empty())
    more = advance();
  int samples = 0;
  bool stopped = false;
  while (more) {
    if (enough()) {
      stopped = true;
      break;
    }
    Found f;
    bool skipped;
    struct itimerval tv = {{0, 0}, {(time_t)s.exec_limit_s, 0}};
    setitimer(ITIMER_REAL, &tv, nullptr);
    sh->running = 1;
    bool failed = execute(s, si, f, skipped);
    sh->running = 0;
    if (!skipped)
      sh->execs++;
    if (failed && !skipped) {
      int &n = seen[f.key];
      if (n < 1)
        write_found(o, f);
      n++;
      saw_failure(f.key);
      if (seen.size() > 60)
        break;
    } else if (!skipped && samples < 2) {
      Found g;
      g.scen = si;
      fprintf(o, "SAMPLE\t%s\t", s.name.c_str());
      for (size_t i = 0; i < ex.choice.size(); i++)
        fprintf(o, "%s%s=%d", i ? " " : "", ex.label[i].c_str(), ex.choice[i]);
      fprintf(o, "\t%s\n", esc(ex.note).substr(0, 600).c_str());
      samples++;
    }
    more = advance();
  }
  struct itimerval z = {{0, 0}, {0, 0}};
  setitimer(ITIMER_REAL, &z, nullptr);
  for (auto &kv : seen)
    fprintf(o, "COUNT\t%d\t%s\t%d\n", si, esc(kv.first).c_str(), kv.second);
  fclose(o);
  std::ofstream st(base + ".st", std::ios::binary | std::ios::app);
  for (uint64_t h : ex.states)
    st.write((char *)&h, 8);
  std::ofstream oc(base + ".oc", std::ios::binary | std::ios::app);
  for (uint64_t h : ex.outcomes)
    oc.write((char *)&h, 8);
  st.close();
  oc.close();
  _exit(stopped ? 12 : ex.state_cap ? 11 : 10);
}

// replay one trace alone, in a child; returns: 0 clean, 1 failed (f filled), 2 died
static int replay_child(const Scenario &s, int si, const std::vector<int> &choice,
                        int limit_s, Found &f, const std::string &tmp, int &status) {
  fflush(stdout);
  pid_t p = fork();
  if (p == 0) {
    Explorer ex;
    E = &ex;
    ex.fixed = true;
    ex.choice = choice;
    ex.width.assign(choice.size(), 0);
    signal(SIGALRM, on_alarm);
    alarm(limit_s);
    Found g;
    bool sk;
    bool failed = execute(s, si, g, sk);
    if (failed) {
      FILE *o = fopen(tmp.c_str(), "w");
      write_found(o, g);
      fclose(o);
      _exit(1);
    }
    _exit(0);
  }
  waitpid(p, &status, 0);
  if (WIFEXITED(status) && WEXITSTATUS(status) == 0)
    return 0;
  if (WIFEXITED(status) && WEXITSTATUS(status) == 1) {
    std::ifstream i(tmp);
    std::string line, k;
    std::getline(i, line);
    std::stringstream ss(line);
    std::string tag, sc;
    std::getline(ss, tag, '\t');
    std::getline(ss, sc, '\t');
    std::getline(ss, f.key, '\t');
    std::getline(ss, k, '\t');
    std::getline(ss, f.msg, '\t');
    return 1;
  }
  return 2;
}

static std::string how_died(int status) {
  if (WIFSIGNALED(status))
    return std::string("killed by signal ") + strsignal(WTERMSIG(status));
  if (WIFEXITED(status) && WEXITSTATUS(status) == 97)
    return "did not finish (hang)";
  return "exited with status " + std::to_string(WEXITSTATUS(status));
}

int main_(int argc, char **argv, std::vector<Scenario> scen) {
  std::string out = "mc.out", replay;
  int W = 8;
  std::string only;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--out")
      out = argv[++i];
    else if (a == "--workers")
      W = atoi(argv[++i]);
    else if (a == "--tier")
      thorough = std::string(argv[++i]) == "thorough";
    else if (a == "--replay")
      replay = argv[++i];
    else if (a == "--only")
      only = argv[++i];
    else if (a == "--deadline")
      deadline = atof(argv[++i]);
    else if (a == "--known")
      known_keys.insert(argv[++i]);
  }
  if (!replay.empty()) {
    // scenario:choices
    size_t k = replay.find(':');
    std::string name = replay.substr(0, k), ch = replay.substr(k + 1);
    for (size_t si = 0; si < scen.size(); si++)
      if (scen[si].name == name) {
        std::vector<int> c;
        std::stringstream ss(ch);
        std::string t;
        while (std::getline(ss, t, ','))
          if (!t.empty())
            c.push_back(atoi(t.c_str()));
        Explorer ex;
        E = &ex;
        ex.fixed = true;
        ex.choice = c;
        ex.width.assign(c.size(), 0);
        Found f;
        bool sk;
        bool failed = execute(scen[si], si, f, sk);
        printf("%s %s %s\nnote: %s\n", failed ? "FAILED" : "PASSED", f.key.c_str(),
               f.msg.c_str(), ex.note.c_str());
        return failed;
      }
    fprintf(stderr, "no such scenario\n");
    return 2;
  }

  FILE *res = fopen(out.c_str(), "w");
  std::set<std::string> bad;
  bool herr = false;
  G = (Common *)mmap(nullptr, sizeof(Common), PROT_READ | PROT_WRITE,
                     MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  G->found = 0;
  for (size_t si = 0; si < scen.size(); si++) {
    if (!only.empty() && scen[si].name != only)
      continue;
    Shared *sh = (Shared *)mmap(nullptr, sizeof(Shared) * W, PROT_READ | PROT_WRITE,
                                MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset(sh, 0, sizeof(Shared) * W);
    std::vector<pid_t> pid(W);
    std::vector<int> restarts(W, 0);
    std::string base = out + "." + std::to_string(si) + ".";
    std::vector<Found> died;
    bool cap = false, truncated = false;
    auto start = [&](int w, const std::vector<int> &c, const std::vector<int> &wd) {
      fflush(res);
      pid_t p = fork();
      if (p == 0)
        worker_main(scen[si], si, w, W, &sh[w], base + std::to_string(w), c, wd);
      pid[w] = p;
    };
    struct timespec t0, t1;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    for (int w = 0; w < W; w++) {
      std::string b = base + std::to_string(w);
      unlink(b.c_str());
      unlink((b + ".st").c_str());
      unlink((b + ".oc").c_str());
      start(w, {}, {});
    }
    int live = W;
    while (live > 0) {
      int status;
      pid_t p = wait(&status);
      int w = std::find(pid.begin(), pid.end(), p) - pid.begin();
      if (w == W)
        continue;
      if (WIFEXITED(status) && WEXITSTATUS(status) >= 10 && WEXITSTATUS(status) <= 12) {
        cap |= WEXITSTATUS(status) == 11;
        truncated |= WEXITSTATUS(status) == 12;
        live--;
        continue;
      }
      if (WIFEXITED(status) && WEXITSTATUS(status) == 99) {
        herr = true;
        live--;
        continue;
      }
      // the code under test took the worker down: keep the trace, go on after it
      Found f;
      f.scen = si;
      std::vector<int> c, wd;
      for (int i = 0; i < sh[w].len && i < MAXT; i++) {
        c.push_back((int)sh[w].choice[i]);
        wd.push_back((int)sh[w].width[i]);
      }
      f.choice = c;
      f.note = sh[w].note;
      f.key = "crash";
      f.msg = how_died(status);
      bool hang = WIFEXITED(status) && WEXITSTATUS(status) == 97;
      if (hang)
        f.key = "hang";
      died.push_back(f);
      sh[w].execs++;
      // one that took too long may be due to the machine: not alone a reason to stop
      if (!hang || std::count_if(died.begin(), died.end(), [](const Found &d) {
                     return d.key == "hang";
                   }) >= 4)
        saw_failure(f.key);
      if (c.empty() || ++restarts[w] > 12 || enough()) {
        truncated = true;
        live--;
        continue;
      }
      start(w, c, wd);
    }
    clock_gettime(CLOCK_MONOTONIC, &t1);
    double wall = t1.tv_sec - t0.tv_sec + (t1.tv_nsec - t0.tv_nsec) * 1e-9;
    // confirm what died, alone and with a longer limit
    // (one of a kind; more only until one is confirmed)
    std::map<std::string, int> diedCount;
    double tr = now();
    bool confirmed = false;
    for (auto &f : died) {
      if (diedCount[f.key]++ >= 3 || (confirmed && now() > tr + 60))
        continue;
      Found g;
      int status = 0;
      int r = replay_child(scen[si], si, f.choice, (int)scen[si].exec_limit_s * 3, g,
                           base + "replay", status);
      if (r == 0)
        continue; // e.g. a slow machine: finished when given time
      if (r == 2)
        f.msg = how_died(status);
      else {
        f.key = g.key;
        f.msg = g.msg;
      }
      confirmed = true;
      write_found(res, f);
    }
    uint64_t execs = 0, steps = 0, evals = 0;
    std::unordered_set<uint64_t> st, oc;
    std::map<std::string, int> replayed;
    for (int w = 0; w < W; w++) {
      execs += sh[w].execs;
      steps += sh[w].steps;
      evals += sh[w].evals;
      std::string b = base + std::to_string(w);
      std::ifstream i(b);
      std::string line;
      while (std::getline(i, line)) {
        if (line.compare(0, 6, "FOUND\t") == 0) {
          // replay before report: the same choices must fail the same way
          std::stringstream ss(line);
          std::string tag, sc, key, ch;
          std::getline(ss, tag, '\t');
          std::getline(ss, sc, '\t');
          std::getline(ss, key, '\t');
          std::getline(ss, ch, '\t');
          if (replayed[key] || (confirmed && now() > tr + 60))
            continue;
          std::vector<int> c;
          std::stringstream cs(ch);
          std::string t;
          while (std::getline(cs, t, ','))
            if (!t.empty())
              c.push_back(atoi(t.c_str()));
          Found g;
          int status = 0;
          int r = replay_child(scen[si], si, c, (int)scen[si].exec_limit_s * 3, g,
                               base + "replay", status);
          bool same = r == 1 && g.key == key;
          replayed[key] += same;
          confirmed |= same && !known_keys.count(key);
          line += same ? "\treplayed" : "\tUNSTABLE";
        }
        fprintf(res, "%s\n", line.c_str());
      }
      for (auto suf : {".st", ".oc"}) {
        std::ifstream s2(b + suf, std::ios::binary);
        uint64_t h;
        while (s2.read((char *)&h, 8))
          (suf[1] == 's' ? st : oc).insert(h);
        s2.close();
        unlink((b + suf).c_str());
      }
      unlink(b.c_str());
    }
    unlink((base + "replay").c_str());
    fprintf(res, "STATS\t%s\t%llu\t%llu\t%llu\t%zu\t%zu\t%d\t%d\t%.2f\n",
            scen[si].name.c_str(), (unsigned long long)execs,
            (unsigned long long)steps, (unsigned long long)evals, st.size(), oc.size(),
            (int)cap, (int)truncated, wall);
    fflush(res);
    munmap(sh, sizeof(Shared) * W);
  }
  fprintf(res, "SCENARIOS");
  for (auto &s : scen)
    fprintf(res, "\t%s", s.name.c_str());
  fprintf(res, "\n%s\n", herr ? "HARNESS_ERROR" : "DONE");
  fclose(res);
  return herr ? 3 : 0;
}
} // namespace mc
