// A small property-based testing engine with integrated shrinking.
//
// Every random decision of a case is one entry of a "choice sequence".  A case is a pure function of its choice
// sequence, so a failing case is replayed from the sequence and shrunk by editing the sequence (deleting runs,
// zeroing, lowering values).  The sequence under construction lives in a shared mapping, so it survives a crash of
// the process (ASan abort, signal), and the shrinker runs each attempt in a forked child.
#pragma once

#include <algorithm>
#include <cmath>
#include <csetjmp>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <map>
#include <set>
#include <signal.h>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

#include <dynd/exceptions.hpp>

namespace pbt {

struct Failure {
  std::string msg;
};

struct Discard {
};

inline uint64_t mix(uint64_t x)
{
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}

static const size_t CAP = 1 << 16;

struct Shared {
  uint64_t n;
  uint64_t v[CAP];
  char note[1 << 16];
  char msg[1 << 14];
  uint64_t nnote;
};

class G {
public:
  Shared *sh;
  bool replay = false;
  std::vector<uint64_t> in;
  size_t pos = 0;
  uint64_t st = 0;
  bool nontriv = false;
  std::map<std::string, uint64_t> *tags = nullptr;

  uint64_t raw()
  {
    st += 0x9e3779b97f4a7c15ULL;
    uint64_t x = st;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
  }

  // A choice in [0, n); 0 is the simplest.
  uint64_t u(uint64_t n)
  {
    if (n <= 1) {
      return 0;
    }
    uint64_t r;
    if (replay) {
      r = pos < in.size() ? in[pos] : 0;
      ++pos;
      if (r >= n) {
        r %= n;
      }
    }
    else {
      r = raw() % n;
    }
    if (sh->n < CAP) {
      sh->v[sh->n++] = r;
    }
    return r;
  }
  // A full 64 bit choice
  uint64_t bits()
  {
    uint64_t r;
    if (replay) {
      r = pos < in.size() ? in[pos] : 0;
      ++pos;
    }
    else {
      r = raw();
    }
    if (sh->n < CAP) {
      sh->v[sh->n++] = r;
    }
    return r;
  }
  // lo..hi inclusive, lo simplest
  int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)u((uint64_t)(hi - lo) + 1); }
  bool coin(uint64_t num = 1, uint64_t den = 2) { return u(den) >= den - num; }
  template <typename T>
  const T &pick(const std::vector<T> &v)
  {
    return v[u(v.size())];
  }
  template <typename T>
  T pick(std::initializer_list<T> v)
  {
    return *(v.begin() + u(v.size()));
  }
  // index by weights
  size_t weighted(std::initializer_list<int> w)
  {
    int tot = 0;
    for (int x : w) {
      tot += x;
    }
    int r = (int)u(tot);
    size_t i = 0;
    for (int x : w) {
      if (r < x) {
        return i;
      }
      r -= x;
      ++i;
    }
    return 0;
  }
  // small size in [0,max] biased toward the small ones
  size_t small(size_t max)
  {
    size_t a = u(max + 1);
    return a;
  }

  void note(const std::string &s)
  {
    size_t room = sizeof(sh->note) - 1 - sh->nnote;
    size_t n = std::min(room, s.size());
    memcpy(sh->note + sh->nnote, s.data(), n);
    sh->nnote += n;
    if (sh->nnote < sizeof(sh->note) - 1) {
      sh->note[sh->nnote++] = '\n';
    }
    sh->note[std::min<size_t>(sh->nnote, sizeof(sh->note) - 1)] = 0;
  }
  void nontrivial(bool b = true) { nontriv = nontriv || b; }
  void tag(const std::string &t)
  {
    if (tags) {
      ++(*tags)[t];
    }
  }
};

[[noreturn]] inline void fail(const std::string &m) { throw Failure{m}; }

template <typename T>
std::string str(const T &x)
{
  std::stringstream ss;
  ss << std::setprecision(17) << x;
  return ss.str();
}

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define CHECK_MSG(cond, ...)                                                                                           \
  do {                                                                                                                 \
    if (!(cond)) {                                                                                                     \
      std::stringstream _ss;                                                                                           \
      _ss << std::setprecision(17) << __VA_ARGS__;                                                                     \
      ::pbt::fail(_ss.str());                                                                                          \
    }                                                                                                                  \
  } while (0)

// Runs f; returns "" if it returned, or the what() of the std::exception it threw
template <typename F>
bool threw(F f, std::string *what = nullptr)
{
  try {
    f();
    return false;
  }
  catch (const std::exception &e) {
    if (what) {
      *what = e.what();
    }
    return true;
  }
  catch (const dynd::dynd_exception &e) {
    if (what) {
      *what = e.what();
    }
    return true;
  }
}

struct Sub {
  std::string name;
  int weight;
  std::function<void(G &)> fn;
};

struct Probe {
  std::string name;               // key in the known-findings file
  std::function<std::string()> fn; // "" if the defect is absent, else what fails
};

struct Config {
  std::string rule;               // what makes a case non-trivial
  std::vector<Sub> subs;          // the generators, chosen by weight
  std::vector<Probe> probes;      // known findings
  std::function<void()> init;     // warm up
  double case_cpu_limit = 20;     // s of CPU for one case: beyond it the case does not terminate
  Config() {}
};

inline uint64_t hash_choices(const Shared *sh)
{
  uint64_t h = 1469598103934665603ULL;
  for (uint64_t i = 0; i < sh->n; ++i) {
    h = mix(h ^ sh->v[i]) + 0x1234567;
  }
  return h;
}

// returns 0 pass, 1 fail, 2 discard
inline int run_case(const Config &cfg, G &g)
{
  g.sh->n = 0;
  g.sh->nnote = 0;
  g.sh->note[0] = 0;
  g.sh->msg[0] = 0;
  g.nontriv = false;
  g.pos = 0;
  std::string msg;
  int rc = 0;
  try {
    int tot = 0;
    for (auto &s : cfg.subs) {
      tot += s.weight;
    }
    int r = (int)g.u(tot);
    size_t k = 0;
    while (r >= cfg.subs[k].weight) {
      r -= cfg.subs[k].weight;
      ++k;
    }
    g.tag("sub:" + cfg.subs[k].name);
    g.note("[" + cfg.subs[k].name + "]");
    cfg.subs[k].fn(g);
  }
  catch (const Failure &f) {
    msg = f.msg;
    rc = 1;
  }
  catch (const Discard &) {
    rc = 2;
  }
  catch (const std::exception &e) {
    msg = std::string("unexpected exception: ") + e.what();
    rc = 1;
  }
  catch (const dynd::dynd_exception &e) {
    msg = std::string("unexpected exception: ") + e.what();
    rc = 1;
  }
  catch (...) {
    msg = "unexpected exception of unknown type";
    rc = 1;
  }
  if (rc == 1) {
    size_t n = std::min(msg.size(), sizeof(g.sh->msg) - 1);
    memcpy(g.sh->msg, msg.data(), n);
    g.sh->msg[n] = 0;
  }
  return rc;
}

inline void arm(double s)
{
  itimerval it;
  memset(&it, 0, sizeof it);
  it.it_value.tv_sec = (long)s;
  it.it_value.tv_usec = (long)((s - (long)s) * 1e6);
  setitimer(ITIMER_PROF, &it, nullptr);
}

inline void on_prof(int)
{
  const char m[] = "PBT: case exceeded its CPU limit (does not terminate)\n";
  (void)!write(2, m, sizeof(m) - 1);
  _exit(97);
}

inline void write_choices(const std::string &path, const std::vector<uint64_t> &v)
{
  std::ofstream f(path);
  for (uint64_t x : v) {
    f << x << "\n";
  }
}

inline std::vector<uint64_t> read_choices(const std::string &path)
{
  std::ifstream f(path);
  std::vector<uint64_t> v;
  uint64_t x;
  std::string line;
  while (std::getline(f, line)) {
    if (line.empty() || line[0] == '#') {
      continue;
    }
    v.push_back(std::stoull(line));
  }
  return v;
}

inline std::string json_escape(const std::string &s)
{
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += (char)c;
    }
    else if (c == '\n') {
      o += "\\n";
    }
    else if (c < 32 || c >= 127) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    }
    else {
      o += (char)c;
    }
  }
  return o;
}

// Outcome of a sequence in a forked child: 0 pass/discard, 1 check failed, 2 crashed or hung
inline int attempt(const Config &cfg, G &g, const std::vector<uint64_t> &in, bool quiet, std::vector<uint64_t> *used,
                   std::string *msg, std::string *note)
{
  fflush(nullptr);
  pid_t p = fork();
  if (p == 0) {
    if (quiet) {
      int fd = open("/dev/null", O_WRONLY);
      dup2(fd, 2);
      dup2(fd, 1);
    }
    g.replay = true;
    g.in = in;
    arm(cfg.case_cpu_limit);
    int rc = run_case(cfg, g);
    _exit(rc == 1 ? 98 : 0);
  }
  int st = 0;
  waitpid(p, &st, 0);
  int r;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
    r = 0;
  }
  else if (WIFEXITED(st) && WEXITSTATUS(st) == 98) {
    r = 1;
  }
  else {
    r = 2;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 97) {
      snprintf(g.sh->msg, sizeof g.sh->msg, "the case does not terminate within %g s of CPU time", cfg.case_cpu_limit);
    }
    else if (WIFSIGNALED(st)) {
      snprintf(g.sh->msg, sizeof g.sh->msg, "the process was killed by signal %d", WTERMSIG(st));
    }
    else {
      snprintf(g.sh->msg, sizeof g.sh->msg,
               "memory error: the process was aborted by the sanitizer or exited (status %d)", WEXITSTATUS(st));
    }
  }
  if (used) {
    used->assign(g.sh->v, g.sh->v + g.sh->n);
  }
  if (msg) {
    *msg = g.sh->msg;
  }
  if (note) {
    *note = std::string(g.sh->note, std::min<size_t>(g.sh->nnote, sizeof(g.sh->note) - 1));
  }
  return r;
}

inline double now()
{
  timeval tv;
  gettimeofday(&tv, nullptr);
  return tv.tv_sec + tv.tv_usec * 1e-6;
}

inline int pbt_main(int argc, char **argv, const Config &cfg)
{
  std::string mode = argc > 1 ? argv[1] : "";
  std::map<std::string, std::string> opt;
  std::vector<std::string> pos;
  for (int i = 2; i < argc; ++i) {
    std::string a = argv[i];
    if (a.compare(0, 2, "--") == 0 && i + 1 < argc) {
      opt[a.substr(2)] = argv[i + 1];
      ++i;
    }
    else {
      pos.push_back(a);
    }
  }
  Shared *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (sh == MAP_FAILED) {
    perror("mmap");
    return 90;
  }
  signal(SIGPROF, on_prof);
  G g;
  g.sh = sh;
  if (cfg.init) {
    cfg.init();
  }

  if (mode == "run") {
    uint64_t seed = std::stoull(opt["seed"]);
    uint64_t shard = std::stoull(opt["shard"]);
    uint64_t cases = std::stoull(opt["cases"]);
    double tmax = std::stod(opt["time"]);
    std::string out = opt["out"];
    // The child does the work; the parent collects what it left when it crashed.
    uint64_t *prog =
        (uint64_t *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    double t0 = now();
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
      std::map<std::string, uint64_t> tags;
      std::unordered_set<uint64_t> distinct;
      std::vector<std::string> samples;
      uint64_t nsamp = 0, disc = 0, evals = 0;
      g.tags = &tags;
      int rc = 0;
      bool capped = false;
      for (uint64_t i = 0; i < cases; ++i) {
        if ((i & 15) == 0 && now() - t0 > tmax) {
          capped = true;
          break;
        }
        g.replay = false;
        g.st = mix(mix(seed) ^ mix(shard * 0x10001 + 77) ^ mix(i + 0x5555));
        arm(cfg.case_cpu_limit);
        rc = run_case(cfg, g);
        prog[0] = i + 1;
        if (rc == 1) {
          break;
        }
        if (rc == 2) {
          ++disc;
          rc = 0;
          continue;
        }
        ++evals;
        if (g.nontriv) {
          bool fresh = distinct.insert(hash_choices(sh)).second;
          if (fresh) {
            ++nsamp;
            if ((nsamp & (nsamp - 1)) == 0 && samples.size() < 12) {
              samples.push_back(std::string(sh->note, std::min<size_t>(sh->nnote, 900)));
            }
          }
        }
      }
      arm(0);
      std::ofstream f(out);
      f << "{\"evaluations\":" << evals << ",\"discarded\":" << disc << ",\"capped\":" << (capped ? "true" : "false")
        << ",\"nontrivial\":" << distinct.size() << ",\"tags\":{";
      bool first = true;
      for (auto &t : tags) {
        f << (first ? "" : ",") << "\"" << json_escape(t.first) << "\":" << t.second;
        first = false;
      }
      f << "},\"samples\":[";
      first = true;
      for (auto &s : samples) {
        f << (first ? "" : ",") << "\"" << json_escape(s) << "\"";
        first = false;
      }
      f << "]}\n";
      f.close();
      std::ofstream h(out + ".hashes", std::ios::binary);
      for (uint64_t x : distinct) {
        h.write((const char *)&x, 8);
      }
      h.close();
      _exit(rc == 1 ? 98 : 0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
      return 0;
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 96) {
      return 96;
    }
    std::vector<uint64_t> v(sh->v, sh->v + sh->n);
    write_choices(out + ".fail", v);
    std::ofstream f(out + ".info");
    f << "after " << prog[0] << " cases\n" << sh->note << "\n" << sh->msg << "\n";
    return 3;
  }

  if (mode == "replay") {
    std::vector<uint64_t> in = read_choices(pos[0]);
    std::string msg, note;
    int r = attempt(cfg, g, in, opt.count("quiet") > 0, nullptr, &msg, &note);
    printf("%s", note.c_str());
    printf("RESULT %s\n%s\n", r == 0 ? "pass" : r == 1 ? "FAIL" : "CRASH", r ? msg.c_str() : "");
    return r == 0 ? 0 : 1;
  }

  if (mode == "shrink") {
    std::vector<uint64_t> best = read_choices(pos[0]);
    std::string outp = pos[1];
    double t0 = now(), tmax = opt.count("time") ? std::stod(opt["time"]) : 40;
    std::vector<uint64_t> used;
    std::string msg, note;
    int want = attempt(cfg, g, best, true, &used, &msg, &note);
    if (want == 0) {
      return 0;
    }
    if (want == 1 || !used.empty()) {
      best = used;
    }
    auto trial = [&](const std::vector<uint64_t> &c) {
      std::vector<uint64_t> us;
      std::string m, n;
      int r = attempt(cfg, g, c, true, &us, &m, &n);
      if (r != want) {
        return false;
      }
      // must not be larger
      if (us.size() > best.size() || (us.size() == best.size() && !(us < best))) {
        return false;
      }
      best = us;
      msg = m;
      note = n;
      return true;
    };
    bool progress = true;
    bool hang = msg.find("does not terminate") != std::string::npos;
    while (progress && now() - t0 < tmax && !hang) {
      progress = false;
      for (size_t len : {32, 16, 8, 4, 2, 1}) {
        for (size_t i = 0; i + len <= best.size() && now() - t0 < tmax;) {
          std::vector<uint64_t> c = best;
          c.erase(c.begin() + i, c.begin() + i + len);
          if (trial(c)) {
            progress = true;
          }
          else {
            // try deleting the run and lowering a length before it
            ++i;
          }
        }
      }
      for (size_t i = 0; i < best.size() && now() - t0 < tmax; ++i) {
        if (best[i] == 0) {
          continue;
        }
        std::vector<uint64_t> c = best;
        c[i] = 0;
        if (trial(c)) {
          progress = true;
          continue;
        }
        // lower the value and delete following entries (a shorter list)
        if (i < best.size() && best[i] > 0 && best[i] < 64) {
          for (size_t del = 1; del <= 6 && i + 1 + del <= best.size(); ++del) {
            c = best;
            c[i] -= 1;
            c.erase(c.begin() + i + 1, c.begin() + i + 1 + del);
            if (trial(c)) {
              progress = true;
              break;
            }
          }
        }
        uint64_t lo = 0;
        while (i < best.size() && best[i] > lo + 1 && now() - t0 < tmax) {
          uint64_t mid = lo + (best[i] - lo) / 2;
          c = best;
          c[i] = mid;
          uint64_t before = best[i];
          if (trial(c)) {
            progress = true;
            if (i >= best.size() || best[i] >= before) {
              break;
            }
          }
          else {
            lo = mid;
          }
        }
        if (i < best.size() && best[i] > 0) {
          c = best;
          c[i] -= 1;
          if (trial(c)) {
            progress = true;
          }
        }
      }
    }
    write_choices(outp, best);
    printf("%s", note.c_str());
    printf("RESULT %s\n%s\n", want == 1 ? "FAIL" : "CRASH", msg.c_str());
    return 1;
  }

  if (mode == "probe") {
    // each known-finding probe in a child: prints "name<TAB>what" when the defect is present
    for (auto &pr : cfg.probes) {
      if (!pos.empty() && std::find(pos.begin(), pos.end(), pr.name) == pos.end()) {
        continue;
      }
      fflush(nullptr);
      int fds[2];
      if (pipe(fds)) {
        return 90;
      }
      pid_t p = fork();
      if (p == 0) {
        close(fds[0]);
        int fd = open("/dev/null", O_WRONLY);
        dup2(fd, 2);
        dup2(fd, 1);
        arm(cfg.case_cpu_limit);
        std::string r;
        try {
          r = pr.fn();
        }
        catch (const Failure &f) {
          r = f.msg;
        }
        catch (const std::exception &e) {
          r = std::string("exception: ") + e.what();
        }
        catch (const dynd::dynd_exception &e) {
          r = std::string("exception: ") + e.what();
        }
        (void)!write(fds[1], r.data(), std::min<size_t>(r.size(), 4000));
        _exit(r.empty() ? 0 : 98);
      }
      close(fds[1]);
      std::string got;
      char buf[512];
      ssize_t n;
      while ((n = read(fds[0], buf, sizeof buf)) > 0) {
        got.append(buf, n);
      }
      close(fds[0]);
      int st = 0;
      waitpid(p, &st, 0);
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
        printf("ABSENT\t%s\n", pr.name.c_str());
      }
      else {
        if (got.empty()) {
          got = "crashes or does not terminate";
        }
        std::replace(got.begin(), got.end(), '\n', ' ');
        printf("PRESENT\t%s\t%s\n", pr.name.c_str(), got.c_str());
      }
    }
    return 0;
  }
  if (mode == "print") {
    // print the first N cases of a seed (development aid)
    uint64_t seed = opt.count("seed") ? std::stoull(opt["seed"]) : 1, cases = std::stoull(opt["cases"]);
    for (uint64_t i = 0; i < cases; ++i) {
      g.replay = false;
      g.st = mix(mix(seed) ^ mix(0 * 0x10001 + 77) ^ mix(i + 0x5555));
      int rc = run_case(cfg, g);
      printf("%s=> %d %s %s\n", sh->note, rc, g.nontriv ? "nontrivial" : "", sh->msg);
    }
    return 0;
  }
  fprintf(stderr, "usage: run|replay|shrink|probe|print\n");
  return 90;
}

} // namespace pbt
