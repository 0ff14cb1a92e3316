// A small choice-sequence property-based testing engine (C++11, header only).
//
// * Every random decision of a case is drawn through Src and recorded, so a case is a list of
//   integers.  Generation, replay and shrinking all work on that list.
// * Cases run in forked workers; the list lives in shared memory, so a crash, a sanitizer abort,
//   a failed assert or a hang in the code under test still leaves a complete reproduction.
// * A run is a pure function of (code, seed, case counts).  The clock is only used to notice a
//   case that burns many seconds of processor time (normal cases take microseconds).
#ifndef PBT_H_
#define PBT_H_
#include <errno.h>
#include <fcntl.h>
#include <math.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <map>
#include <set>
#include <string>
#include <vector>

#ifndef PBT_SHARE  // of the cases, for a second build of the same harness
#define PBT_SHARE 1
#endif

namespace pbt {

typedef uint64_t u64;
typedef int64_t i64;

struct Fail {
  std::string msg;
};

inline u64 mix(u64 x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}

struct Rng {
  u64 a, b;
  explicit Rng(u64 seed = 1) {
    a = mix(seed);
    b = mix(a ^ 0x1234567);
    if (!(a | b)) a = 1;
  }
  u64 next() {
    u64 r = a + b;
    u64 t = b ^ a;
    a = ((a << 55) | (a >> 9)) ^ t ^ (t << 14);
    b = (t << 36) | (t >> 28);
    return mix(r);
  }
};

enum { MAXC = 1 << 17, MSGLEN = 6000 };

// One per worker, in shared memory.
struct Shm {
  volatile u64 progress;  // cases started
  volatile u64 case_no;   // number of the running case
  volatile int status;    // 0 running, 1 finished, 2 property failed
  volatile u64 n;         // choices recorded
  char msg[MSGLEN];
  u64 ch[MAXC];
};

// For properties over real threads, which may not fail the same way twice: a failure is reported as it was first seen.
inline bool &once() {
  static bool b = false;
  return b;
}
inline Shm *&running() {
  static Shm *s = 0;
  return s;
}
// Called by a case that takes long and gets on.
inline void alive() {
  if (running()) running()->progress = running()->progress + 1;
}

inline Shm *new_shm() {
  void *p = mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    exit(2);
  }
  return static_cast<Shm *>(p);
}

struct Overflow {};

// While set, the heap-block counter of nano_pre.h stands still (the engine's own allocations).
inline volatile int &pause_count() {
  static volatile int p = 0;
  return p;
}
struct Pause {
  Pause() { pause_count() = pause_count() + 1; }
  ~Pause() { pause_count() = pause_count() - 1; }
};

class Src {
 public:
  Shm *shm;
  bool replay;
  Rng rng;
  const u64 *in;
  size_t nin, pos;
  bool verbose;
  std::string notes;
  bool is_nontrivial;
  u64 hash;
  std::map<std::string, u64> *labels;

  Src(Shm *s) : shm(s), replay(false), in(0), nin(0), pos(0), verbose(false), is_nontrivial(false), hash(0), labels(0) {
    shm->n = 0;
  }

  // Uniform in [0, n); shrinks towards 0.
  u64 below(u64 n) {
    if (n == 0) n = 1;
    return raw(n);
  }
  // Any 64 bit pattern.
  u64 bits64() { return raw(0); }
  // Inclusive; shrinks towards lo.
  i64 range(i64 lo, i64 hi) { return (i64)((u64)lo + raw((u64)hi - (u64)lo + 1)); }
  // True with probability num/den; shrinks to false.
  bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }
  bool flip() { return below(2) == 1; }
  // One more element of a sequence of mean length `mean` (shrinks to "stop").
  bool more(unsigned mean) { return below(mean + 1) != 0; }
  // Index chosen by weight; earlier entries are the simpler ones.
  size_t weighted(const unsigned *w, size_t n) {
    u64 tot = 0;
    for (size_t i = 0; i < n; i++) tot += w[i];
    u64 r = below(tot);
    for (size_t i = 0; i < n; i++) {
      if (r < w[i]) return i;
      r -= w[i];
    }
    return n - 1;
  }
  // Size skewed to small values, sometimes near powers of two, up to max.
  size_t size(size_t max) {
    u64 k = below(8);
    if (k < 5) return (size_t)below(std::min<size_t>(max, 9) + 1);
    if (k == 5) return (size_t)below(std::min<size_t>(max, 70) + 1);
    if (k == 6) {
      unsigned lg = 0;
      while (((size_t)2 << lg) <= max) lg++;
      i64 v = ((i64)1 << below(lg + 1)) + range(-1, 1);
      return (size_t)std::max<i64>(0, std::min<i64>(v, (i64)max));
    }
    return (size_t)below(max + 1);
  }
  // Integer with edge values favoured.
  i64 edgy(i64 lo, i64 hi) {
    u64 k = below(6);
    if (k == 0) return clampi(range(-3, 3), lo, hi);
    if (k == 1) return lo + (i64)below(3);
    if (k == 2) return hi - (i64)below(3);
    if (k == 3) {
      i64 v = (i64)(1ull << below(63)) + range(-1, 1);
      if (flip()) v = -v;
      return clampi(v, lo, hi);
    }
    return range(lo, hi);
  }

  void note(const char *f, ...) __attribute__((format(printf, 2, 3))) {
    if (!verbose || notes.size() > 20000) return;
    Pause pp;
    char b[4096];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    notes += b;
  }
  void label(const char *l) {
    if (!labels) return;
    Pause pp;
    (*labels)[l]++;
  }
  void nontrivial() { is_nontrivial = true; }

 private:
  static i64 clampi(i64 v, i64 lo, i64 hi) { return v < lo ? lo : v > hi ? hi : v; }
  u64 raw(u64 n) {
    u64 v;
    if (replay) {
      v = pos < nin ? in[pos] : 0;
      pos++;
      if (n && v >= n) v = n - 1;
    } else {
      v = rng.next();
      if (n) v = (u64)(((unsigned __int128)v * n) >> 64);
    }
    if (shm->n >= MAXC) throw Overflow();
    shm->ch[shm->n] = v;
    shm->n = shm->n + 1;
    hash = mix(hash ^ (v + 0x51ed27));
    return v;
  }
};

inline std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char *f, ...) {
  va_list ap;
  va_start(ap, f);
  char *b = 0;
  int n = vasprintf(&b, f, ap);
  va_end(ap);
  std::string r(n > 0 ? b : "");
  free(b);
  return r;
}

inline void fail_at(const char *file, int line, const char *expr, const std::string &m) {
  (void)file;
  (void)line;
  Fail f;
  f.msg = std::string(expr) + (m.empty() ? "" : " -- ") + m;
  throw f;
}
#define REQUIRE(c)                                              \
  do {                                                          \
    if (!(c)) ::pbt::fail_at(__FILE__, __LINE__, #c, "");       \
  } while (0)
#define REQUIRE_MSG(c, ...)                                                        \
  do {                                                                             \
    if (!(c)) ::pbt::fail_at(__FILE__, __LINE__, #c, ::pbt::fmt(__VA_ARGS__));     \
  } while (0)

typedef void (*Prop)(Src &);
// A sweep point: throws Fail if the property fails at x; returns true if the point is non-trivial.
typedef bool (*Point)(u64 x);

struct Sub {
  const char *name;
  Prop prop;
  Point point;
  u64 quick, thorough;  // cases per run (all workers), or points
  u64 lo, hi;           // sweeps: points come from [lo, hi)
  const char *what;
};

inline std::vector<Sub> &subs() {
  static std::vector<Sub> v;
  return v;
}
struct Reg {
  Reg(const char *n, Prop p, u64 q, u64 t, const char *what) {
    Sub s = {n, p, 0, q, t, 0, 0, what};
    subs().push_back(s);
  }
  Reg(const char *n, Point p, u64 lo, u64 hi, u64 q, u64 t, const char *what) {
    Sub s = {n, 0, p, q, t, lo, hi, what};
    subs().push_back(s);
  }
};
#define PROPERTY(fn, quick, thorough, what)                                    \
  static void fn(::pbt::Src &);                                                \
  static ::pbt::Reg reg_##fn(#fn, fn, quick, thorough, what);                  \
  static void fn(::pbt::Src &s)
// quick points are spread over [lo,hi) (stratified, seed dependent); thorough >= hi-lo means all.
#define SWEEP(fn, lo, hi, quick, thorough, what)                               \
  static bool fn(::pbt::u64);                                                  \
  static ::pbt::Reg reg_##fn(#fn, fn, lo, hi, quick, thorough, what);          \
  static bool fn(::pbt::u64 x)

// ------------------------------------------------------------------------------------------

enum Outcome { OK, FAILED, CRASHED, HUNG };

struct Result {
  Outcome out;
  std::string msg;
  std::vector<u64> choices;
  std::string notes;
};

inline std::string esc(const std::string &s) {
  std::string r;
  for (size_t i = 0; i < s.size(); i++) {
    unsigned char c = (unsigned char)s[i];
    if (c == '"' || c == '\\') {
      r += '\\';
      r += (char)c;
    } else if (c < 32 || c >= 127) {
      r += fmt("\\u%04x", c);
    } else {
      r += (char)c;
    }
  }
  return r;
}

inline void child_stderr(const char *path) {
  int fd = open(path, O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd >= 0) {
    dup2(fd, 2);
    close(fd);
  }
}

inline std::string slurp(const std::string &p, size_t max = 1 << 20) {
  std::string r;
  FILE *f = fopen(p.c_str(), "rb");
  if (!f) return r;
  char b[4096];
  size_t n;
  while (r.size() < max && (n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n);
  fclose(f);
  return r;
}

// Runs one case with given choices in the current process.
inline void run_case(const Sub &sub, Src &s) {
  if (sub.prop) {
    sub.prop(s);
  } else {
    u64 x = s.bits64();
    if (x < sub.lo || x >= sub.hi) return;
    s.note("point %llu (0x%llx)", (unsigned long long)x, (unsigned long long)x);
    if (sub.point(x)) s.nontrivial();
  }
}

inline std::string crash_summary(const std::string &err, int st) {
  std::string r;
  if (WIFSIGNALED(st)) r = fmt("killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
  else r = fmt("exited with status %d", WEXITSTATUS(st));
  size_t p = err.find("SUMMARY:");
  if (p == std::string::npos) p = err.find("runtime error");
  if (p == std::string::npos) p = err.find("Assertion");
  if (p != std::string::npos) {
    size_t b = err.rfind('\n', p), e = err.find('\n', p);
    b = b == std::string::npos ? 0 : b + 1;
    r += "; " + err.substr(b, (e == std::string::npos ? err.size() : e) - b);
  } else if (!err.empty()) {
    r += "; " + err.substr(0, 200);
  }
  return r;
}

// Runs one case in a fresh child.
inline Result run_forked(const Sub &sub, const std::vector<u64> &in, bool verbose, unsigned cpu_s, const std::string &tmp) {
  static Shm *shm = 0;
  if (!shm) shm = new_shm();
  shm->status = 0;
  shm->n = 0;
  shm->msg[0] = 0;
  std::string errp = tmp + "/replay.err", notep = tmp + "/replay.notes";
  unlink(notep.c_str());
  fflush(0);
  pid_t pid = fork();
  if (pid < 0) {
    perror("fork");
    exit(2);
  }
  if (pid == 0) {
    struct rlimit rl = {cpu_s, cpu_s + 2};
    if (!once()) setrlimit(RLIMIT_CPU, &rl);
    child_stderr(errp.c_str());
    Src s(shm);
    s.replay = true;
    s.in = in.data();
    s.nin = in.size();
    s.verbose = verbose;
    int st = 1;
    try {
      run_case(sub, s);
    } catch (const Fail &f) {
      snprintf(shm->msg, MSGLEN, "%s", f.msg.c_str());
      st = 2;
    } catch (const Overflow &) {
    }
    if (verbose) {
      FILE *f = fopen(notep.c_str(), "wb");
      if (f) {
        fwrite(s.notes.data(), 1, s.notes.size(), f);
        fclose(f);
      }
    }
    shm->status = st;
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
  }
  Result r;
  r.choices.assign(shm->ch, shm->ch + std::min<u64>((u64)shm->n, (u64)MAXC));
  if (shm->status == 1) {
    r.out = OK;
  } else if (shm->status == 2) {
    r.out = FAILED;
    r.msg = shm->msg;
  } else if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL)) {
    r.out = HUNG;
    r.msg = fmt("did not finish within %u s of processor time", cpu_s);
  } else {
    r.out = CRASHED;
    r.msg = crash_summary(slurp(errp), st);
  }
  if (verbose) r.notes = slurp(notep);
  return r;
}

inline std::vector<u64> shrink(const Sub &sub, std::vector<u64> cur, Outcome kind, const std::string &tmp, unsigned cpu_s) {
  int budget = kind == HUNG ? 25 : 4000;
  time_t t0 = time(0);
  unsigned cpu = kind == HUNG ? cpu_s : 5;
  bool progress = true;
  struct T {
    static bool better(const std::vector<u64> &a, const std::vector<u64> &b) {
      if (a.size() != b.size()) return a.size() < b.size();
      return a < b;
    }
  };
#define TRY(cand)                                                          \
  ((budget-- > 0 && time(0) - t0 < 90) &&                                  \
   (rr = run_forked(sub, cand, false, cpu, tmp),                           \
    rr.out != OK && (kind == HUNG || rr.out != HUNG) && T::better(rr.choices, cur)) && (cur = rr.choices, true))
  Result rr;
  if (sub.point) return cur;
  while (progress && budget > 0) {
    progress = false;
    for (size_t k = cur.size(); k >= 1; k = k > 8 ? k / 2 : k - 1) {
      for (size_t i = 0; i + k <= cur.size() && budget > 0;) {
        std::vector<u64> c(cur);
        c.erase(c.begin() + i, c.begin() + i + k);
        if (TRY(c)) progress = true;
        else i += k > 8 ? k : 1;
      }
    }
    for (size_t k = 16; k >= 1; k /= 4)
      for (size_t i = 0; i < cur.size() && budget > 0; i += k) {
        std::vector<u64> c(cur);
        bool any = false;
        for (size_t j = i; j < i + k && j < c.size(); j++) {
          any |= c[j] != 0;
          c[j] = 0;
        }
        if (any && TRY(c)) progress = true;
      }
    for (size_t i = 0; i < cur.size() && budget > 0; i++) {
      u64 lo = 0;
      while (i < cur.size() && lo < cur[i] && budget > 0) {
        std::vector<u64> c(cur);
        u64 mid = lo + (cur[i] - lo) / 2;
        c[i] = mid;
        u64 before = cur[i];
        if (TRY(c)) {
          progress = true;
          if (i < cur.size() && cur[i] >= before) break;
        } else {
          lo = mid + 1;
        }
      }
    }
  }
#undef TRY
  return cur;
}

struct Config {
  u64 seed;
  bool thorough;
  std::string id, tmp, out, replay_out, only;
  unsigned workers;
  double scale;
};

struct Range;
inline void write_range(FILE *f, const Range &g);
inline void write_replay(const std::string &path, const std::string &id, const Sub &sub, const Result &r, const Range *g) {
  FILE *f = fopen(path.c_str(), "wb");
  if (!f) {
    perror(path.c_str());
    exit(2);
  }
  fprintf(f, "property %s\nsub %s\nwhat %s\nfailure %s\n", id.c_str(), sub.name, sub.what, esc(r.msg).c_str());
  if (g) write_range(f, *g);
  fprintf(f, "choices");
  for (size_t i = 0; i < r.choices.size(); i++) fprintf(f, " %llu", (unsigned long long)r.choices[i]);
  fprintf(f, "\n--- case ---\n%s\n", r.notes.c_str());
  fclose(f);
}

struct Stats {
  u64 evals, nontrivial, distinct;
  std::map<std::string, u64> labels;
  std::vector<std::string> samples;
  bool exhaustive;
  Stats() : evals(0), nontrivial(0), distinct(0), exhaustive(false) {}
};

inline double cpu_of(pid_t pid) {
  clockid_t c;
  struct timespec ts;
  if (clock_getcpuclockid(pid, &c) || clock_gettime(c, &ts)) return 0;
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

inline void worker_cases(const Config &cfg, const Sub &sub, unsigned subno, unsigned w, u64 lo, u64 hi, Shm *shm, const std::string &statp) {
  std::map<std::string, u64> labels;
  std::vector<u64> hashes;
  u64 evals = 0, nontriv = 0;
  std::vector<std::string> samples;
  running() = shm;
  for (u64 c = lo; c < hi; c++) {
    shm->case_no = c;
    shm->progress = shm->progress + 1;
    Src s(shm);
    s.rng = Rng(mix(cfg.seed * 1000003 + subno) ^ mix(c + 77));
    s.labels = &labels;
    s.verbose = w == 0 && samples.size() < 3 && c < lo + 400;
    try {
      sub.prop(s);
    } catch (const Fail &f) {
      snprintf(shm->msg, MSGLEN, "%s", f.msg.c_str());
      shm->status = 2;
      _exit(0);
    } catch (const Overflow &) {
      labels["(case too long, cut)"]++;
    }
    evals++;
    if (s.is_nontrivial) {
      nontriv++;
      hashes.push_back(s.hash);
      if (s.verbose && !s.notes.empty()) samples.push_back(s.notes.substr(0, 1500));
    }
  }
  std::sort(hashes.begin(), hashes.end());
  hashes.erase(std::unique(hashes.begin(), hashes.end()), hashes.end());
  FILE *f = fopen(statp.c_str(), "wb");
  if (!f) _exit(3);
  u64 hdr[4] = {evals, nontriv, hashes.size(), labels.size()};
  fwrite(hdr, 8, 4, f);
  fwrite(hashes.data(), 8, hashes.size(), f);
  for (std::map<std::string, u64>::iterator it = labels.begin(); it != labels.end(); ++it) {
    u64 l[2] = {it->first.size(), it->second};
    fwrite(l, 8, 2, f);
    fwrite(it->first.data(), 1, it->first.size(), f);
  }
  u64 ns = samples.size();
  fwrite(&ns, 8, 1, f);
  for (size_t i = 0; i < samples.size(); i++) {
    u64 l = samples[i].size();
    fwrite(&l, 8, 1, f);
    fwrite(samples[i].data(), 1, l, f);
  }
  fclose(f);
}

inline void worker_sweep(const Config &cfg, const Sub &sub, u64 total, u64 lo, u64 hi, Shm *shm, const std::string &statp) {
  u64 span = sub.hi - sub.lo, evals = 0, nontriv = 0, distinct_nt = 0, prev = ~0ull;
  shm->n = 1;
  u64 key = mix(cfg.seed ^ 0xabcdef);
  for (u64 c = lo; c < hi; c++) {
    u64 x;
    if (total >= span) {
      x = sub.lo + c;
    } else {
      // one point from stratum c
      u64 a = (u64)((unsigned __int128)span * c / total), b = (u64)((unsigned __int128)span * (c + 1) / total);
      x = sub.lo + a + (b > a ? mix(key ^ c) % (b - a) : 0);
    }
    shm->ch[0] = x;
    if ((c & 1023) == 0) {
      shm->case_no = c;
      shm->progress = shm->progress + 1;
    }
    bool nt;
    try {
      nt = sub.point(x);
    } catch (const Fail &f) {
      snprintf(shm->msg, MSGLEN, "%s", f.msg.c_str());
      shm->status = 2;
      _exit(0);
    }
    evals++;
    if (nt) {
      nontriv++;
      if (x != prev) distinct_nt++;  // strata are disjoint and increasing
    }
    prev = x;
  }
  FILE *f = fopen(statp.c_str(), "wb");
  if (!f) _exit(3);
  u64 hdr[5] = {evals, nontriv, distinct_nt, 0, 0};
  fwrite(hdr, 8, 5, f);
  fclose(f);
}

// A stretch of consecutive cases, in one fresh process: for failures that need state left behind by earlier cases.
struct Range {
  u64 seed, subno, total, lo, hi;
};
inline Result run_range(const Sub &sub, const Range &g, const std::string &tmp) {
  Shm *shm = new_shm();
  shm->status = 0;
  shm->case_no = g.lo;
  fflush(0);
  pid_t pid = fork();
  if (pid < 0) {
    perror("fork");
    exit(2);
  }
  const std::string errp = tmp + "/range.err";
  if (pid == 0) {
    child_stderr(errp.c_str());
    Config c;
    c.seed = g.seed;
    if (sub.prop) worker_cases(c, sub, (unsigned)g.subno, 1, g.lo, g.hi, shm, "/dev/null");
    else worker_sweep(c, sub, g.total, g.lo, g.hi, shm, "/dev/null");
    shm->status = 1;
    _exit(0);
  }
  Result r;
  r.out = OK;
  int st = 0;
  u64 last = 0;
  double since = 0;
  for (;;) {
    pid_t w = waitpid(pid, &st, WNOHANG);
    if (w == pid) break;
    u64 p = shm->progress;
    double c = cpu_of(pid);
    if (p != last) last = p, since = c;
    else if (c - since > 45) {
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      r.out = HUNG;
      r.msg = "one case used too much processor time";
      break;
    }
    usleep(2000);
  }
  if (r.out != HUNG && shm->status == 2) r.out = FAILED, r.msg = shm->msg;
  else if (r.out != HUNG && shm->status != 1) r.out = CRASHED, r.msg = crash_summary(slurp(errp), st);
  r.notes = fmt("cases %llu to %llu of seed %llu, one after another in one process; case %llu fails\n", (unsigned long long)g.lo, (unsigned long long)g.hi - 1,
                (unsigned long long)g.seed, (unsigned long long)shm->case_no);
  munmap(shm, sizeof(Shm));
  return r;
}

inline void write_range(FILE *f, const Range &g) {
  fprintf(f, "range %llu %llu %llu %llu %llu\n", (unsigned long long)g.seed, (unsigned long long)g.subno, (unsigned long long)g.total, (unsigned long long)g.lo, (unsigned long long)g.hi);
}
inline int replay_file(const std::string &path, const std::string &tmp) {
  std::string t = slurp(path, 64 << 20);
  size_t a = t.find("\nsub "), b = t.find("\nchoices");
  if (a == std::string::npos || b == std::string::npos) {
    fprintf(stderr, "bad replay file %s\n", path.c_str());
    return 2;
  }
  std::string name = t.substr(a + 5, t.find('\n', a + 5) - a - 5);
  std::vector<u64> ch;
  const char *p = t.c_str() + b + 8;
  while (*p == ' ') ch.push_back(strtoull(p, (char **)&p, 10));
  for (size_t i = 0; i < subs().size(); i++) {
    if (name != subs()[i].name) continue;
    const size_t at = t.find("\nrange ");
    Range g;
    Result r;
    if (at != std::string::npos && at < b) {
      unsigned long long v[5] = {0, 0, 0, 0, 0};
      sscanf(t.c_str() + at + 7, "%llu %llu %llu %llu %llu", v, v + 1, v + 2, v + 3, v + 4);
      g.seed = v[0], g.subno = v[1], g.total = v[2], g.lo = v[3], g.hi = v[4];
      r = run_range(subs()[i], g, tmp);
    } else {
      r = run_forked(subs()[i], ch, true, 30, tmp);
      for (int k = 0; once() && r.out == OK && k < 20; k++) r = run_forked(subs()[i], ch, true, 30, tmp);
    }
    printf("sub %s: %s\n%s\n%s\n", name.c_str(), r.out == OK ? "holds" : "FAILS", r.msg.c_str(), r.notes.c_str());
    return r.out == OK ? 0 : 1;
  }
  fprintf(stderr, "no sub-property %s\n", name.c_str());
  return 2;
}

// Runs one sub-property over all workers. Returns true if it held.
inline bool run_sub(const Config &cfg, const Sub &sub, unsigned subno, Stats &st, Result &bad, Range &range) {
  u64 total = (u64)((cfg.thorough ? sub.thorough : sub.quick) * cfg.scale * PBT_SHARE);
  if (total == 0) total = 1;
  if (sub.point && total >= sub.hi - sub.lo) {
    total = sub.hi - sub.lo;
    st.exhaustive = true;
  }
  unsigned W = (unsigned)std::min<u64>(cfg.workers, total);
  std::vector<Shm *> shm(W);
  std::vector<pid_t> pid(W);
  std::vector<int> alive(W, 1), wst(W, 0);
  std::vector<u64> last(W, 0);
  std::vector<double> last_cpu(W, 0);
  std::vector<bool> hung(W, false);
  const double hang_cpu = 45;
  fflush(0);
  for (unsigned w = 0; w < W; w++) {
    shm[w] = new_shm();
    u64 lo = (u64)((unsigned __int128)total * w / W), hi = (u64)((unsigned __int128)total * (w + 1) / W);
    std::string statp = cfg.tmp + fmt("/stat.%u", w);
    unlink(statp.c_str());
    pid[w] = fork();
    if (pid[w] < 0) {
      perror("fork");
      exit(2);
    }
    if (pid[w] == 0) {
      child_stderr((cfg.tmp + fmt("/worker.%u.err", w)).c_str());
      if (sub.prop) worker_cases(cfg, sub, subno, w, lo, hi, shm[w], statp);
      else worker_sweep(cfg, sub, total, lo, hi, shm[w], statp);
      shm[w]->status = 1;
      _exit(0);
    }
  }
  unsigned n = W;
  int badw = -1;
  while (n > 0 && badw < 0) {
    bool any = false;
    for (unsigned w = 0; w < W && badw < 0; w++) {
      if (!alive[w]) continue;
      int s;
      pid_t r = waitpid(pid[w], &s, WNOHANG);
      if (r == pid[w]) {
        alive[w] = 0;
        n--;
        wst[w] = s;
        any = true;
        if (shm[w]->status != 1) badw = (int)w;
      } else {
        u64 p = shm[w]->progress;
        double c = cpu_of(pid[w]);
        if (p != last[w]) {
          last[w] = p;
          last_cpu[w] = c;
        } else if (c - last_cpu[w] > hang_cpu) {
          kill(pid[w], SIGKILL);
          waitpid(pid[w], &s, 0);
          alive[w] = 0;
          n--;
          wst[w] = s;
          hung[w] = true;
          badw = (int)w;
        }
      }
    }
    if (!any && badw < 0) usleep(5000);
  }
  for (unsigned w = 0; w < W; w++)
    if (alive[w]) {
      kill(pid[w], SIGKILL);
      int s;
      waitpid(pid[w], &s, 0);
    }
  if (badw >= 0) {
    Shm *m = shm[badw];
    bad.choices.assign(m->ch, m->ch + std::min<u64>((u64)m->n, (u64)MAXC));
    if (m->status == 2) {
      bad.out = FAILED;
      bad.msg = m->msg;
    } else if (hung[badw]) {
      bad.out = HUNG;
      bad.msg = "one case used too much processor time";
    } else {
      bad.out = CRASHED;
      bad.msg = crash_summary(slurp(cfg.tmp + fmt("/worker.%d.err", badw)), wst[badw]);
    }
    if (bad.out == FAILED && sub.point && m->n >= 1) bad.choices.resize(1);
    range.seed = cfg.seed, range.subno = subno, range.total = total;
    range.lo = (u64)((unsigned __int128)total * (unsigned)badw / W);
    range.hi = std::min<u64>((u64)((unsigned __int128)total * ((unsigned)badw + 1) / W), m->case_no + (sub.point ? 1024 : 1));
    for (unsigned w = 0; w < W; w++) munmap(shm[w], sizeof(Shm));
    return false;
  }
  std::vector<u64> hashes;
  for (unsigned w = 0; w < W; w++) {
    munmap(shm[w], sizeof(Shm));
    FILE *f = fopen((cfg.tmp + fmt("/stat.%u", w)).c_str(), "rb");
    u64 hdr[4];
    if (!f || fread(hdr, 8, 4, f) != 4) {
      fprintf(stderr, "worker statistics missing\n");
      exit(2);
    }
    st.evals += hdr[0];
    st.nontrivial += hdr[1];
    if (sub.point) {
      st.distinct += hdr[2];
    } else {
      size_t o = hashes.size();
      hashes.resize(o + hdr[2]);
      if (fread(hashes.data() + o, 8, hdr[2], f) != hdr[2]) exit(2);
      for (u64 i = 0; i < hdr[3]; i++) {
        u64 l[2];
        if (fread(l, 8, 2, f) != 2) exit(2);
        std::string s(l[0], 0);
        if (fread(&s[0], 1, l[0], f) != l[0]) exit(2);
        st.labels[s] += l[1];
      }
      u64 ns = 0;
      if (fread(&ns, 8, 1, f) != 1) exit(2);
      for (u64 i = 0; i < ns; i++) {
        u64 l;
        if (fread(&l, 8, 1, f) != 1) exit(2);
        std::string s(l, 0);
        if (l && fread(&s[0], 1, l, f) != l) exit(2);
        st.samples.push_back(s);
      }
    }
    fclose(f);
  }
  if (sub.point) {
    u64 span = sub.hi - sub.lo;
    for (u64 k = 1; k <= 3; k++) {
      u64 x = sub.lo + (u64)((unsigned __int128)span * (2 * k - 1) / 6);
      if (!st.exhaustive) {
        u64 c = total * (2 * k - 1) / 6;
        u64 a = (u64)((unsigned __int128)span * c / total), b = (u64)((unsigned __int128)span * (c + 1) / total);
        x = sub.lo + a + (b > a ? mix(mix(cfg.seed ^ 0xabcdef) ^ c) % (b - a) : 0);
      }
      st.samples.push_back(fmt("point 0x%llx", (unsigned long long)x));
    }
  }
  if (!sub.point) {
    std::sort(hashes.begin(), hashes.end());
    st.distinct += (u64)(std::unique(hashes.begin(), hashes.end()) - hashes.begin());
  }
  return true;
}

inline int main_(int argc, char **argv) {
  Config cfg;
  cfg.seed = 1;
  cfg.thorough = false;
  cfg.workers = 8;
  cfg.scale = 1;
  cfg.tmp = "/tmp";
  std::string rp;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    std::string v = i + 1 < argc ? argv[i + 1] : "";
    if (a == "--seed") cfg.seed = strtoull(v.c_str(), 0, 10), i++;
    else if (a == "--thorough") cfg.thorough = true;
    else if (a == "--id") cfg.id = v, i++;
    else if (a == "--tmp") cfg.tmp = v, i++;
    else if (a == "--stats") cfg.out = v, i++;
    else if (a == "--replay-out") cfg.replay_out = v, i++;
    else if (a == "--workers") cfg.workers = (unsigned)atoi(v.c_str()), i++;
    else if (a == "--scale") cfg.scale = atof(v.c_str()), i++;
    else if (a == "--only") cfg.only = v, i++;
    else if (a == "--replay") rp = v, i++;
    else {
      fprintf(stderr, "unknown argument %s\n", a.c_str());
      return 2;
    }
  }
  if (!rp.empty()) return replay_file(rp, cfg.tmp);
  std::string js = "{\"subs\": [";
  int rc = 0;
  bool first = true;
  for (size_t i = 0; i < subs().size(); i++) {
    const Sub &sub = subs()[i];
    if (!cfg.only.empty() && cfg.only != sub.name) continue;
    Stats st;
    Result bad;
    Range range;
    struct timespec t0, t1;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    bool ok = run_sub(cfg, sub, (unsigned)i, st, bad, range);
    clock_gettime(CLOCK_MONOTONIC, &t1);
    if (ok) {
      printf("%s: held on %llu cases (%llu distinct non-trivial) in %.1f s\n", sub.name, (unsigned long long)st.evals,
             (unsigned long long)st.distinct, (t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) * 1e-9);
      for (std::map<std::string, u64>::iterator it = st.labels.begin(); it != st.labels.end(); ++it)
        printf("    %-40s %llu\n", it->first.c_str(), (unsigned long long)it->second);
      fflush(stdout);
      js += fmt("%s{\"name\": \"%s\", \"what\": \"%s\", \"evaluations\": %llu, \"nontrivial\": %llu, \"distinct\": %llu, "
                "\"exhaustive\": %s, \"labels\": {",
                first ? "" : ", ", sub.name, esc(sub.what).c_str(), (unsigned long long)st.evals,
                (unsigned long long)st.nontrivial, (unsigned long long)st.distinct, st.exhaustive ? "true" : "false");
      bool fl = true;
      for (std::map<std::string, u64>::iterator it = st.labels.begin(); it != st.labels.end(); ++it, fl = false)
        js += fmt("%s\"%s\": %llu", fl ? "" : ", ", esc(it->first).c_str(), (unsigned long long)it->second);
      js += "}, \"samples\": [";
      for (size_t k = 0; k < st.samples.size() && k < 3; k++) js += std::string(k ? ", " : "") + "\"" + esc(st.samples[k]) + "\"";
      js += "]}";
      first = false;
      continue;
    }
    // Confirm, shrink, and replay three times before reporting.
    printf("%s: failed (%s); shrinking\n", sub.name, bad.msg.c_str());
    fflush(stdout);
    unsigned cpu = bad.out == HUNG ? 20 : 30;
    Result fin;
    bool by_range = false;
    Result again;
    if (once()) {
      again.out = OK;
      fin = bad;
    } else {
      again = run_forked(sub, bad.choices, false, cpu, cfg.tmp);
    }
    for (int k = 0; k < 5 && !once() && again.out == OK; k++) again = run_forked(sub, bad.choices, false, cpu, cfg.tmp);
    if (again.out != OK) {
      std::vector<u64> small = shrink(sub, bad.choices, again.out, cfg.tmp, cpu);
      fin = run_forked(sub, small, true, 30, cfg.tmp);
      int fails = 0;
      for (int k = 0; k < 3; k++) fails += run_forked(sub, small, false, 30, cfg.tmp).out != OK;
      if (fin.out == OK || fails < 3) {
        small = bad.choices;
        fin = run_forked(sub, small, true, 30, cfg.tmp);
        fails = 0;
        for (int k = 0; k < 3; k++) fails += run_forked(sub, small, false, 30, cfg.tmp).out != OK;
        by_range = fails < 3;
      }
      fin.choices = small;
    } else {
      by_range = !once();
    }
    if (by_range) {
      // The case alone does not fail: repeat it after the cases that came before it, as few as needed.
      Range g = range, best = range;
      bool found = false;
      for (u64 n = sub.point ? 1024 : 1; !found; n *= 8) {
        g.lo = range.hi - range.lo > n ? range.hi - n : range.lo;
        if (run_range(sub, g, cfg.tmp).out != OK && run_range(sub, g, cfg.tmp).out != OK) found = true, best = g;
        if (g.lo == range.lo) break;
      }
      int fails = 0;
      for (int k = 0; k < 3 && found; k++) {
        fin = run_range(sub, best, cfg.tmp);
        fails += fin.out != OK;
      }
      if (fails < 3) {
        fprintf(stderr, "%s: failure (%s) did not reproduce\n", sub.name, bad.msg.c_str());
        return 2;
      }
      range = best;
    }
    printf("counterexample (%s):\n%s\n%s\n", sub.what, fin.notes.c_str(), fin.msg.c_str());
    std::string path = cfg.replay_out;
    if (path.empty()) path = cfg.tmp + "/replay.txt";
    write_replay(path, cfg.id, sub, fin, by_range ? &range : 0);
    printf("VIOLATION property=%s replay=%s\n", cfg.id.c_str(), path.c_str());
    fflush(stdout);
    js += fmt("%s{\"name\": \"%s\", \"what\": \"%s\", \"failed\": true, \"message\": \"%s\", \"evaluations\": %llu, \"nontrivial\": %llu, \"distinct\": 0, \"exhaustive\": false, \"labels\": {}, \"samples\": [\"%s\"]}",
              first ? "" : ", ", sub.name, esc(sub.what).c_str(), esc(fin.msg).c_str(), (unsigned long long)1, (unsigned long long)1, esc(fin.notes.substr(0, 1500)).c_str());
    rc = 1;
    break;
  }
  js += "]}\n";
  if (!cfg.out.empty()) {
    FILE *f = fopen(cfg.out.c_str(), "wb");
    if (!f) {
      perror(cfg.out.c_str());
      return 2;
    }
    fwrite(js.data(), 1, js.size(), f);
    fclose(f);
  }
  return rc;
}

}  // namespace pbt

#ifdef PBT_MAIN
int main(int argc, char **argv) { return pbt::main_(argc, argv); }
#endif
#endif  // PBT_H_
