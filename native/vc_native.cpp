// Native runtime of the contracts: bounded enumeration and random sampling of the inputs, and replay.
#include "vc.h"

#include <fcntl.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <unordered_set>
#include <vector>

extern "C" int __sanitizer_install_malloc_and_free_hooks(
    void (*)(const volatile void*, size_t),
    void (*)(const volatile void*));

namespace {

struct Entry {
  const char* name;
  vc_fn fn;
  const char* kind;
};
std::vector<Entry>& entries() {
  static std::vector<Entry> e;
  return e;
}

volatile long live = 0;
volatile int quiet = 0;
struct Quiet { // The allocations of the runtime are not counted
  Quiet() {
    ++quiet;
  }
  ~Quiet() {
    --quiet;
  }
};
void on_malloc(const volatile void*, size_t) {
  if (!quiet)
    ++live;
}
void on_free(const volatile void* p) {
  if (p && !quiet)
    --live;
}

struct Discard {};
struct Done {};
struct Failure {};

struct Shared {
  volatile long runs, kept, distinct;
  volatile int failed, done, exhaustive;
  char label[400];
  char trace[16384];
  char samples[3][2000];
} * sh;

enum Mode { ENUM, RAND, REPLAY } mode;
struct Choice {
  long v, lo, hi;
};
std::vector<Choice> path;
size_t pos;
uint64_t rng;
size_t tlen;
std::map<std::string, int> counts;
std::map<std::string, std::string> replay;
std::vector<void*> arrays;
uint64_t hashv;
bool usesArrays = false;

uint64_t rnd() {
  rng ^= rng << 13;
  rng ^= rng >> 7;
  rng ^= rng << 17;
  return rng * 2685821657736338717ull >> 11;
}

void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void note(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  if (tlen + 200 < sizeof(sh->trace)) {
    tlen += vsnprintf(sh->trace + tlen, sizeof(sh->trace) - tlen - 1, fmt, ap);
  }
  va_end(ap);
}

std::string unique(const char* name) {
  const int c = counts[name]++;
  return c ? std::string(name) + "#" + std::to_string(c) : std::string(name);
}

long choose(const std::string& name, long lo, long hi) {
  long v;
  if (mode == REPLAY) {
    auto it = replay.find(name);
    v = it == replay.end() ? lo : atol(it->second.c_str());
  } else if (mode == ENUM) {
    if (pos < path.size()) {
      v = path[pos].v;
    } else {
      v = lo;
      path.push_back({lo, lo, hi});
    }
    ++pos;
  } else {
    v = lo + long(rnd() % uint64_t(hi - lo + 1));
    if (rnd() % 8 == 0) {
      v = rnd() % 2 ? lo : hi;
    }
  }
  hashv = hashv * 1099511628211ull + uint64_t(v) + 0x9e3779b97f4a7c15ull;
  return v;
}

template <typename T>
T* array(const char* name, long n) {
  const std::string u = unique(name);
  if (n < 0 || n > 50000000) {
    throw Discard();
  }
  T* out = static_cast<T*>(malloc(n * sizeof(T)));
  arrays.push_back(out);
  usesArrays = true;
  uint64_t s = rnd();
  if (mode == REPLAY && replay.count("seed:" + u)) {
    s = strtoull(replay["seed:" + u].c_str(), nullptr, 10);
  }
  note("seed:%s=%llu\n", u.c_str(), (unsigned long long)s);
  const uint64_t keep = rng;
  rng = s | 1;
  const int kind = rnd() % 3;
  for (long i = 0; i < n; ++i) {
    out[i] = kind == 0 ? T(i * 7 + 1) : kind == 1 ? T(long(rnd() % 9) - 4) : T(i - n / 2);
  }
  if (kind == 0 || kind == 2) {
    for (long i = n - 1; i > 0; --i) {
      std::swap(out[i], out[rnd() % (i + 1)]);
    }
  }
  rng = keep;
  if (mode == REPLAY) {
    for (long i = 0; i < n; ++i) {
      auto it = replay.find(u + "[" + std::to_string(i) + "]");
      if (it != replay.end()) {
        out[i] = T(atof(it->second.c_str()));
      }
    }
  }
  for (long i = 0; i < n && i < 40; ++i) {
    note("# %s[%ld]=%g\n", u.c_str(), i, double(out[i]));
  }
  hashv = hashv * 1099511628211ull + s;
  return out;
}

void fail(const char* label) {
  if (!sh->failed) {
    sh->failed = 1;
    snprintf(sh->label, sizeof(sh->label), "%s", label);
  }
  throw Failure();
}

double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}

int one(const Entry& e) {
  int r = 0;
  tlen = 0;
  sh->trace[0] = 0;
  counts.clear();
  pos = 0;
  hashv = 1469598103934665603ull;
  ++sh->runs;
  try {
    e.fn();
    r = 1;
  } catch (const Discard&) {
    r = 0;
  } catch (const Done&) {
    r = 1;
  } catch (const Failure&) {
    r = 2;
  } catch (const std::exception& x) {
    sh->failed = 1;
    snprintf(sh->label, sizeof(sh->label), "exception: unexpected exception: %.300s", x.what());
    r = 2;
  }
  for (auto p : arrays) {
    free(p);
  }
  arrays.clear();
  if (r == 1) {
    if (sh->kept < 3) {
      memcpy(sh->samples[sh->kept], sh->trace, 1999);
    }
    ++sh->kept;
  }
  return r;
}

void child(const Entry& e, double budget, uint64_t seed, long maxruns) {
  rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
  rng = seed * 0x9e3779b97f4a7c15ull + 88172645463325252ull;
  if (mode == REPLAY) {
    one(e);
    sh->done = 1;
    fflush(stdout);
    _exit(sh->failed ? 1 : 0);
  }
  const double t0 = now();
  std::unordered_set<uint64_t> seen;
  mode = ENUM;
  int passes = 0;
  while (true) {
    const int r = one(e);
    if (r == 2) {
      _exit(1);
    }
    if (r == 1 && !passes) {
      ++sh->distinct;
    }
    path.resize(pos);
    while (!path.empty() && path.back().v >= path.back().hi) {
      path.pop_back();
    }
    if (path.empty()) {
      // All the choices were enumerated: again with other array contents
      sh->exhaustive = 1;
      if (!usesArrays || ++passes >= 100 || now() - t0 > budget * 0.25) {
        break;
      }
      continue;
    }
    ++path.back().v;
    if (now() - t0 > budget * (sh->exhaustive ? 0.3 : 0.4) || sh->runs > maxruns) {
      break;
    }
  }
  if (!sh->exhaustive) {
    mode = RAND;
    const long start = sh->runs;
    while (now() - t0 < budget && sh->runs - start < maxruns) {
      const int r = one(e);
      if (r == 2) {
        _exit(1);
      }
      if (r == 1 && seen.size() < 2000000 && seen.insert(hashv).second) {
        ++sh->distinct;
      }
    }
  }
  sh->done = 1;
  fflush(stdout);
  _exit(0);
}

void quote(FILE* f, const char* s) {
  fputc('"', f);
  for (; *s; ++s) {
    if (*s == '"' || *s == '\\') {
      fprintf(f, "\\%c", *s);
    } else if (*s == '\n') {
      fprintf(f, "\\n");
    } else if ((unsigned char)*s < 32 || (unsigned char)*s > 126) {
      fprintf(f, "?");
    } else {
      fputc(*s, f);
    }
  }
  fputc('"', f);
}

int supervise(const Entry& e, double budget, uint64_t seed, long maxruns) {
  memset(sh, 0, sizeof(*sh));
  fflush(stdout);
  int fds[2];
  if (pipe(fds)) {
    return 3;
  }
  const pid_t pid = fork();
  if (pid == 0) {
    close(fds[0]);
    dup2(fds[1], 2);
    const int nul = open("/dev/null", 1);
    dup2(nul, 1);
    child(e, budget, seed, maxruns);
  }
  close(fds[1]);
  fcntl(fds[0], F_SETFL, O_NONBLOCK);
  std::string err;
  char buf[4096];
  long last = -1;
  double since = now();
  int status = 0;
  bool hung = false;
  while (true) {
    const pid_t w = waitpid(pid, &status, WNOHANG);
    ssize_t n;
    while ((n = read(fds[0], buf, sizeof(buf))) > 0) {
      if (err.size() < 20000) {
        err.append(buf, n);
      }
    }
    if (w == pid) {
      break;
    }
    if (sh->runs != last) {
      last = sh->runs;
      since = now();
    } else if (now() - since > 20) {
      hung = true;
      kill(pid, SIGKILL);
      waitpid(pid, &status, 0);
      break;
    }
    usleep(2000);
  }
  close(fds[0]);
  const bool crash = !hung && !sh->failed && (!WIFEXITED(status) || WEXITSTATUS(status) != 0 || !sh->done);
  if (hung) {
    snprintf(sh->label, sizeof(sh->label), "termination: no result after 20 s");
  } else if (crash) {
    std::string line = "memory or undefined behaviour: abnormal end";
    const size_t p = err.find("ERROR: ");
    const size_t q = err.find("runtime error: ");
    const size_t a = p != std::string::npos ? p : q;
    if (a != std::string::npos) {
      line = "memory or undefined behaviour: " + err.substr(a, err.find('\n', a) - a);
    }
    snprintf(sh->label, sizeof(sh->label), "%s", line.c_str());
  }
  const bool bad = hung || crash || sh->failed;
  printf("RESULT {\"proof\": \"%s\", \"kind\": \"%s\", \"ok\": %s, \"runs\": %ld, \"kept\": %ld, \"distinct\": %ld, "
         "\"exhaustive\": %s, \"label\": ",
         e.name, e.kind, bad ? "false" : "true", sh->runs, sh->kept, sh->distinct, sh->exhaustive ? "true" : "false");
  quote(stdout, bad ? sh->label : "");
  printf(", \"inputs\": ");
  quote(stdout, bad ? sh->trace : sh->samples[0]);
  printf(", \"stderr\": ");
  quote(stdout, bad ? err.substr(0, 6000).c_str() : "");
  printf("}\n");
  fflush(stdout);
  return bad ? 1 : 0;
}

} // namespace

int vc_register(const char* name, vc_fn fn, const char* kind) {
  entries().push_back({name, fn, kind});
  return 0;
}

extern "C" {

long vc_long(const char* name, long lo, long hi) {
  Quiet q;
  const std::string u = unique(name);
  const long v = choose(u, lo, hi);
  note("%s=%ld\n", u.c_str(), v);
  return v;
}

bool vc_bool(const char* name) {
  return vc_long(name, 0, 1) != 0;
}

double vc_double(const char* name, double lo, double hi) {
  Quiet q;
  const std::string u = unique(name);
  double v;
  if (mode == REPLAY && replay.count(u)) {
    v = atof(replay[u].c_str());
  } else {
    v = choose(u, long(std::ceil(lo * 4)), long(std::floor(hi * 4))) * 0.25;
  }
  note("%s=%.17g\n", u.c_str(), v);
  return v;
}

int* vc_array_int(const char* name, long size) {
  Quiet q;
  return array<int>(name, size);
}
long* vc_array_long(const char* name, long size) {
  Quiet q;
  return array<long>(name, size);
}
double* vc_array_double(const char* name, long size) {
  Quiet q;
  return array<double>(name, size);
}
float* vc_array_float(const char* name, long size) {
  Quiet q;
  return array<float>(name, size);
}

void vc_assume(bool c) {
  if (!c) {
    throw Discard();
  }
}

// The proof distinguishes the two cases
void vc_split(bool) {}

void vc_assert(bool c, const char* label) {
  if (!c) {
    fail((std::string("contract: ") + label).c_str());
  }
}

void vc_invariant(bool c, const char* label) {
  if (!c) {
    fail((std::string("invariant: ") + label).c_str());
  }
}

void vc_expect_result(bool expected, bool thrown, const char* label) {
  if (expected != thrown) {
    fail((std::string(thrown ? "contract: raises only when specified (" : "contract: raises when specified (") + label + ")").c_str());
  }
  if (thrown) {
    throw Done();
  }
}

long vc_live_allocs() {
  return live;
}

void vc_pow2(long p) {
  vc_assume(p > 0 && (p & (p - 1)) == 0);
}

void vc_iteration_1(long) {}

void vc_iteration_2(long, long) {}

void vc_iteration_3(long, long, long) {}
}

int main(int argc, char** argv) {
  sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  std::string name, file;
  double budget = 2;
  uint64_t seed = 1;
  long maxruns = 2000000;
  for (int i = 1; i < argc; ++i) {
    const std::string a = argv[i];
    if (a == "--list") {
      for (auto& e : entries()) {
        printf("%s %s\n", e.name, e.kind);
      }
      return 0;
    } else if (a == "--run") {
      name = argv[++i];
    } else if (a == "--budget") {
      budget = atof(argv[++i]);
    } else if (a == "--max") {
      maxruns = atol(argv[++i]);
    } else if (a == "--seed") {
      seed = strtoull(argv[++i], nullptr, 10);
    } else if (a == "--replay") {
      file = argv[++i];
    }
  }
  mode = ENUM;
  if (!file.empty()) {
    mode = REPLAY;
    FILE* f = fopen(file.c_str(), "r");
    if (!f) {
      return 3;
    }
    char line[4096];
    while (fgets(line, sizeof(line), f)) {
      std::string l = line;
      while (!l.empty() && (l.back() == '\n' || l.back() == '\r')) {
        l.pop_back();
      }
      if (l.empty() || l[0] == '#') {
        continue;
      }
      const size_t p = l.find('=');
      if (p == std::string::npos) {
        continue;
      }
      if (l.substr(0, p) == "proof") {
        name = l.substr(p + 1);
      } else {
        replay[l.substr(0, p)] = l.substr(p + 1);
      }
    }
    fclose(f);
  }
  int rc = 0;
  bool found = false;
  for (auto& e : entries()) {
    if (name.empty() || name == e.name) {
      found = true;
      rc |= supervise(e, budget, seed, maxruns);
    }
  }
  return found ? rc : 3;
}
