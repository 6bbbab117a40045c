// Deterministic simulator for the debugging utility: one run creates one debug_parsing_error object in a fresh process
// whose standard output, allocator and exit handlers are simulated.
//   simdbg run MODE SEED FROM COUNT | hash MODE SEED FROM COUNT | replay "<params>" | show MODE SEED INDEX | list
#include "dbgiface.h"
#include <cerrno>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <exception>
#include <fcntl.h>
#include <iostream>
#include <map>
#include <new>
#include <pthread.h>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

extern "C" void* __libc_malloc(size_t);
extern "C" void __libc_free(void*);

namespace
{
struct Rng
{
  uint64_t s;
  explicit Rng(uint64_t x = 0) : s(x) {}
  uint64_t next()
  {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  bool chance(uint64_t a, uint64_t b) { return below(b) < a; }
};

struct OutFault { int call; char kind; int keep; };  // kind: F fails, T throws, S short then fails; after keep bytes
struct Params
{
  int sc = 0;
  int ctx = 0;    // 0 main, 1 thread, 2 static initialisation
  int form = 0;   // local, temporary, heap, base class, array
  int mode = 0;   // 0 stream buffer, 1 C stdio on a limited file, 2 own file buffer (sync_with_stdio(false))
  int bufsize = 0;
  int exc = 0;    // 0 none, 1 badbit, 2 badbit|failbit
  int alloc = -1, sticky = 0;
  int kill = -1;
  int handler = 0;  // 0 plain, 1 crashes, 2 _exit(0) without flushing
  int limit = -1;   // mode 1: file size limit
  int dead = 1;     // output faults are permanent
  int again = -1;   // if the first creation throws, the fault is over and this scenario's object is created
  std::vector<OutFault> out;
};

enum { OUTMAX = 16384 };
struct Shared
{
  volatile int cout_bad, second, caught2, len_at_catch, done, caught, after, handler_ran, alloc_fired, out_fired, killed, delivered_at_handler, delivered_calls, bad_prefix, ended, allocs;
  volatile int len;
  char out[OUTMAX];
  char exc_what[256];
};
Shared* S = nullptr;
Params P;
int out_fd = -1;
bool sim_on = false;
__thread bool in_throw = false, quiet = false;
int alloc_no = 0;

int file_len() { long n = lseek(out_fd, 0, SEEK_END); return (int)n; }

bool alloc_fails()
{
  if (!sim_on || quiet) return false;
  if (in_throw) { in_throw = false; return false; }
  int n = alloc_no++;
  S->allocs = alloc_no;
  if (P.alloc >= 0 && (n == P.alloc || (P.sticky && n >= P.alloc))) { S->alloc_fired++; return true; }
  return false;
}

// delivers to the simulated device; returns the number of bytes accepted, -1 for none with an error; may throw
bool dead_now = false;
long deliver(const char* p, long n, bool may_throw)
{
  int call = S->delivered_calls++;
  long keep = n;
  char kind = 0;
  if (sim_on && dead_now) { keep = 0; kind = 'F'; }
  else if (sim_on)
    for (auto& f : P.out)
      if (f.call == call) { kind = f.kind; keep = f.keep < n ? f.keep : n; if (kind == 'F') keep = 0; if (P.dead) dead_now = true; }
  for (long i = 0; i < keep; ++i)
  {
    if (P.kill >= 0 && S->len == P.kill) { S->killed = 1; raise(SIGKILL); }
    if (S->len < OUTMAX) S->out[S->len] = p[i];
    S->len = S->len + 1;
  }
  if (kind)
  {
    S->out_fired++;
    if (kind == 'T' && may_throw) throw std::runtime_error("sink");
    if (keep == 0) return -1;
  }
  return keep;
}

struct SimBuf : std::streambuf
{
  std::vector<char> buf;
  explicit SimBuf(int n) : buf(n) { reset(); }
  void reset() { if (buf.empty()) setp(nullptr, nullptr); else setp(buf.data(), buf.data() + buf.size()); }
  bool drain()
  {
    long n = pptr() - pbase();
    if (!n) return true;
    std::vector<char> d;
    bool q = quiet;
    quiet = true;
    d.assign(pbase(), pptr());
    quiet = q;
    reset();  // what cannot be delivered is lost
    return deliver(d.data(), n, true) == n;
  }
  int_type overflow(int_type c) override
  {
    if (!drain()) return traits_type::eof();
    if (traits_type::eq_int_type(c, traits_type::eof())) return traits_type::not_eof(c);
    char ch = traits_type::to_char_type(c);
    if (buf.empty()) return deliver(&ch, 1, true) == 1 ? c : traits_type::eof();
    *pptr() = ch;
    pbump(1);
    return c;
  }
  std::streamsize xsputn(const char* s, std::streamsize n) override
  {
    if (buf.empty()) { long k = deliver(s, n, true); return k < 0 ? 0 : k; }
    std::streamsize i = 0;
    for (; i < n; ++i) if (traits_type::eq_int_type(sputc(s[i]), traits_type::eof())) break;
    return i;
  }
  int sync() override { return drain() ? 0 : -1; }
};

void note_end() { if (P.mode == 1) S->len = file_len(); }

void on_exit_handler()
{
  sim_on = false;
  note_end();
  S->handler_ran = 1;
  S->delivered_at_handler = S->len;
  S->cout_bad = std::cout.bad();
  if (P.handler == 1) raise(SIGSEGV);
  if (P.handler == 2) _exit(0);
}

void body()
{
  try { dbg_scenarios[P.sc].run(P.form); }
  catch (const std::exception& e) { sim_on = false; S->caught = 1; strncpy(S->exc_what, e.what(), 250); }
  catch (...) { sim_on = false; S->caught = 1; strcpy(S->exc_what, "unknown"); }
  sim_on = false;
  if (S->caught && P.again >= 0)
  {
    std::cout.clear();
    note_end();
    S->len_at_catch = S->len;
    S->second = 1;
    try { dbg_scenarios[P.again].run((P.form + 1) % 5); }
    catch (...) { S->caught2 = 1; }
  }
}
void* thread_body(void*) { body(); return nullptr; }

void execute()
{
  alarm(120);
  struct rlimit cpu = {3, 4};  // seconds of processor time: a run takes milliseconds
  setrlimit(RLIMIT_CPU, &cpu);
  struct rlimit nocore = {0, 0};
  setrlimit(RLIMIT_CORE, &nocore);
  signal(SIGXFSZ, SIG_IGN);
  signal(SIGPIPE, SIG_IGN);
  if (P.mode == 2) { std::ios_base::sync_with_stdio(false); }
  // what goes past the simulated device reaches nobody
  if (P.mode != 1) { int null = open("/dev/null", O_WRONLY); dup2(null, 1); close(null); }
  if (P.mode == 0) std::cout.rdbuf(new SimBuf(P.bufsize));
  if (P.mode == 1)
  {
    static char b[8192];
    setvbuf(stdout, P.bufsize > 1 ? b : nullptr, P.bufsize == 0 ? _IONBF : P.bufsize == 1 ? _IOLBF : _IOFBF, P.bufsize > 1 ? P.bufsize : 0);
    if (P.limit >= 0) { struct rlimit l = {(rlim_t)P.limit, (rlim_t)P.limit}; setrlimit(RLIMIT_FSIZE, &l); }
    dup2(out_fd, 1);
  }
  if (P.exc) std::cout.exceptions(P.exc == 1 ? std::ios_base::badbit : std::ios_base::badbit | std::ios_base::failbit);
  atexit(on_exit_handler);
  pthread_t t;
  bool thr = P.ctx == 1;
  if (thr)
  {
    // started only once everything is in place; main waits for it
    sim_on = false;
    struct Start { static void* go(void*) { sim_on = true; return thread_body(nullptr); } };
    pthread_create(&t, nullptr, Start::go, nullptr);
    pthread_join(t, nullptr);
  }
  else { sim_on = true; body(); }
  note_end();
  S->done = 1;
  _exit(42);  // only reached when the object's creation threw or returned
}

std::string describe();
bool parse(const std::string&);

// in a process started for the static initialisation context, the run takes place in this constructor
struct StaticContext
{
  StaticContext()
  {
    const char* e = getenv("VERIF_DBG_STATIC");
    if (!e) return;
    S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, 3, 0);
    out_fd = 4;
    if (!parse(e)) _exit(77);
    unsetenv("VERIF_DBG_STATIC");
    execute();
  }
};
}  // namespace

void* operator new(std::size_t n)
{
  if (alloc_fails()) { in_throw = true; throw std::bad_alloc(); }
  void* p = __libc_malloc(n ? n : 1);
  if (!p) abort();
  return p;
}
void* operator new[](std::size_t n) { return operator new(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return alloc_fails() ? nullptr : __libc_malloc(n ? n : 1); }
void* operator new[](std::size_t n, const std::nothrow_t& t) noexcept { return operator new(n, t); }
void operator delete(void* p) noexcept { __libc_free(p); }
void operator delete(void* p, std::size_t) noexcept { __libc_free(p); }
void operator delete[](void* p) noexcept { __libc_free(p); }
void operator delete[](void* p, std::size_t) noexcept { __libc_free(p); }
extern "C"
{
void* malloc(size_t n)
{
  if (alloc_fails()) { errno = ENOMEM; return nullptr; }
  return __libc_malloc(n);
}
ssize_t write(int fd, const void* p, size_t n)
{
  static auto f = (ssize_t(*)(int, const void*, size_t))dlsym(RTLD_NEXT, "write");
  if (S && P.mode == 2 && fd == 1)
  {
    long k = deliver((const char*)p, (long)n, false);
    if (k < 0) { errno = ENOSPC; return -1; }
    return k;
  }
  return f(fd, p, n);
}
ssize_t writev(int fd, const struct iovec* v, int c)
{
  static auto f = (ssize_t(*)(int, const struct iovec*, int))dlsym(RTLD_NEXT, "writev");
  if (S && P.mode == 2 && fd == 1)
  {
    std::string s;
    bool q = quiet;
    quiet = true;
    for (int i = 0; i < c; ++i) s.append((const char*)v[i].iov_base, v[i].iov_len);
    quiet = q;
    ssize_t k = write(fd, s.data(), s.size());
    return k;
  }
  return f(fd, v, c);
}
void dbg_after() { S->after = 1; }
}

namespace
{
std::string describe()
{
  std::ostringstream o;
  o << "ctx=" << P.ctx << " form=" << P.form << " mode=" << P.mode << " bufsize=" << P.bufsize << " exc=" << P.exc << " alloc=" << P.alloc
    << " sticky=" << P.sticky << " kill=" << P.kill << " handler=" << P.handler << " limit=" << P.limit << " dead=" << P.dead;
  if (P.again >= 0) o << " again=" << P.again;
  o << " out=";
  for (auto& f : P.out) o << f.call << f.kind << f.keep << ",";
  o << " sc=" << dbg_scenarios[P.sc].name;
  return o.str();
}
bool parse(const std::string& s)
{
  P = Params();
  P.sc = -1;
  size_t at = s.find(" sc=");
  if (at == std::string::npos) return false;
  std::string name = s.substr(at + 4);
  for (int i = 0; i < dbg_scenario_count; ++i) if (name == dbg_scenarios[i].name) P.sc = i;
  std::istringstream in(s.substr(0, at));
  std::string w;
  while (in >> w)
  {
    size_t e = w.find('=');
    std::string k = w.substr(0, e), v = w.substr(e + 1);
    if (k == "out")
    {
      std::istringstream l(v);
      std::string f;
      while (std::getline(l, f, ','))
      {
        OutFault o;
        if (sscanf(f.c_str(), "%d%c%d", &o.call, &o.kind, &o.keep) == 3) P.out.push_back(o);
      }
      continue;
    }
    int x = atoi(v.c_str());
    if (k == "ctx") P.ctx = x; else if (k == "form") P.form = x; else if (k == "mode") P.mode = x; else if (k == "bufsize") P.bufsize = x;
    else if (k == "exc") P.exc = x; else if (k == "alloc") P.alloc = x; else if (k == "sticky") P.sticky = x; else if (k == "kill") P.kill = x;
    else if (k == "handler") P.handler = x; else if (k == "limit") P.limit = x; else if (k == "dead") P.dead = x;
    else if (k == "again" && x >= 0 && x < dbg_scenario_count) P.again = x;
  }
  return P.sc >= 0;
}

struct Outcome { bool viol; std::string what; int status; uint64_t hash; };

std::string quote(const std::string& s)
{
  std::string r = "\"";
  for (unsigned char ch : s)
    if (ch < 32 || ch > 126 || ch == '"' || ch == '\\') { char b[8]; snprintf(b, 8, "\\x%02x", ch); r += b; }
    else r += (char)ch;
  return r + "\"";
}

int shm_fd = -1;
Outcome run_one(const std::string& oracle, const char* self)
{
  Outcome o = {false, "", 0, 0};
  memset((void*)S, 0, sizeof *S);
  if (ftruncate(out_fd, 0)) exit(3);
  lseek(out_fd, 0, SEEK_SET);
  alloc_no = 0;
  fflush(stdout);
  std::string d = P.ctx == 2 ? describe() : "";
  pid_t pid = fork();
  if (pid == 0)
  {
    if (P.ctx == 2)
    {
      int a = fcntl(shm_fd, F_DUPFD, 20), b = fcntl(out_fd, F_DUPFD, 20);
      dup2(a, 3); dup2(b, 4);
      setenv("VERIF_DBG_STATIC", d.c_str(), 1);
      execl(self, self, (char*)0);
      _exit(78);
    }
    execute();
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  o.status = st;
  if (P.mode == 1)
  {
    S->len = file_len();
    if (pread(out_fd, (void*)S->out, S->len < OUTMAX ? S->len : OUTMAX, 0) < 0) exit(3);
  }
  std::string want(dbg_scenarios[P.sc].expect, dbg_scenarios[P.sc].expect_len);
  std::string got((const char*)S->out, S->len < OUTMAX ? S->len : OUTMAX);
  uint64_t h = 0xCBF29CE484222325ull;
  auto mix = [&](uint64_t v) { h = (h ^ v) * 0x100000001B3ull; h ^= h >> 29; };
  for (unsigned char c : got) mix(c);
  int flags[] = {S->second, S->caught2, st, S->caught, S->after, S->handler_ran, S->alloc_fired, S->out_fired, S->delivered_at_handler, S->delivered_calls, P.sc};
  for (int f : flags) mix((uint64_t)f);
  o.hash = h;
  // how far a run that never ends has got when it is stopped is not part of its outcome
  bool stuck = WIFSIGNALED(st) && (WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGXCPU || (WTERMSIG(st) == SIGKILL && !S->killed));
  if (stuck) o.hash = 0x5157ull + (uint64_t)P.sc;
  bool killed = S->killed != 0;
  bool out_fault = S->out_fired || (P.mode == 1 && P.limit >= 0 && P.limit < (int)want.size());
  bool disturbed = out_fault || S->alloc_fired;
  if (S->second)
  {
    // what the first creation had put out, or left in a buffer, comes before the second report
    std::string w2(dbg_scenarios[P.again].expect, dbg_scenarios[P.again].expect_len), best = want.substr(0, S->len_at_catch) + w2;
    for (size_t k = S->len_at_catch; k <= want.size(); ++k)
    {
      std::string w = want.substr(0, k) + w2;
      if (w.compare(0, got.size(), got) == 0) { best = w; break; }
    }
    want = best;
    disturbed = false;
  }
  bool complete = got == want;
  auto bad = [&](const std::string& w) { if (!o.viol) { o.viol = true; o.what = w; } };
  if (WIFEXITED(st) && (WEXITSTATUS(st) == 77 || WEXITSTATUS(st) == 78)) { fprintf(stderr, "cannot start the run\n"); exit(3); }
  if (oracle == "C04")
  {
    if (want.compare(0, got.size(), got) != 0 || got.size() > want.size())
      bad("delivered " + quote(got) + " which is not a prefix of " + quote(want));
    else if (!disturbed && !killed && !complete && (!S->caught || S->second) && !S->after && (P.handler == 0 || S->delivered_at_handler == (int)want.size()))
      bad("delivered only " + quote(got) + " of " + quote(want) + " though nothing failed");
    else if (!disturbed && !killed && !complete && P.handler == 0)
      bad("delivered only " + quote(got) + " of " + quote(want) + " though nothing failed");
  }
  else if (!killed)
  {
    std::ostringstream s;
    if (stuck) bad("the program did not end");
    if (S->second && S->caught2) bad("a second creation threw though nothing failed any more");
    else if (S->after) bad("the code after the object's creation ran");
    else if (S->caught && !S->second)
    {
      if (!S->alloc_fired && !(P.exc && out_fault)) bad(std::string("an exception (") + (const char*)S->exc_what + ") left the creation though nothing failed");
    }
    else
    {
      if (!S->handler_ran) { s << "exit handlers did not run, wait status " << st; bad(s.str()); }
      if (P.handler == 1 ? !(WIFSIGNALED(st) && WTERMSIG(st) == SIGSEGV) : !(WIFEXITED(st) && WEXITSTATUS(st) == 0))
      { s << "did not end with exit status 0, wait status " << st; bad(s.str()); }
      if (!disturbed && S->delivered_at_handler != (int)want.size())
        bad("when exit handlers started, only " + quote(got.substr(0, S->delivered_at_handler)) + " of " + quote(want) + " was out");
      if (S->alloc_fired && !out_fault && !S->second && S->delivered_at_handler != (int)want.size())
        bad("exited with status 0 after a failed allocation with only " + quote(got.substr(0, S->delivered_at_handler)) + " reported");
      // a line-buffered stdout can swallow the error of a write in the C library: nobody was told then
      bool told = !(P.mode == 1 && P.bufsize == 1) || S->cout_bad;
      if (P.exc && out_fault && !complete && told && !S->second) bad("exited with status 0 though standard output threw");
    }
  }
  return o;
}

void generate(const std::string& mode, uint64_t seed, uint64_t index)
{
  Rng r(seed * 0x9E3779B97F4A7C15ull ^ (index + 1) * 0xD1B54A32D192ED03ull ^ (uint64_t)mode[2] << 56);
  r.next();
  P = Params();
  P.sc = (int)(index % (uint64_t)dbg_scenario_count);
    P.form = (int)r.below(5);
  P.ctx = r.chance(1, 6) ? 1 : r.chance(1, 12) ? 2 : 0;
  P.mode = r.chance(1, 2) ? 0 : 1 + (int)r.below(2);
  static const int sizes[] = {0, 1, 2, 3, 7, 16, 31, 64, 100, 256, 1024, 4096};
  P.bufsize = sizes[r.below(12)];
  P.exc = r.chance(1, 2) ? 0 : 1 + (int)r.below(2);
  P.handler = mode == "C05" ? (int)r.below(3) : 0;
  int what = (int)r.below(8);
  if (what >= 1 && what <= 3)
  {
    P.alloc = (int)r.below(r.chance(3, 4) ? 3 : 12);
    for (int i = 0; i < 4 && !strstr(dbg_scenarios[P.sc].expect, "(see "); ++i) P.sc = (int)r.below(dbg_scenario_count);
    P.sticky = r.chance(1, 3);
  }
  int wantlen = (int)dbg_scenarios[P.sc].expect_len;
  if (what >= 4 && what < 7)
  {
    if (P.mode == 1) P.limit = (int)r.below(wantlen + 2);
    else
    {
      int n = 1 + (int)r.below(3);
      int calls = P.mode == 0 && P.bufsize < 8 ? wantlen / (P.bufsize + 1) + 4 : 14;
      for (int i = 0; i < n; ++i)
      {
        OutFault f;
        f.call = (int)r.below(calls);
        // a file buffer retries short writes by itself and treats errors as final
        f.kind = P.mode == 2 ? (r.chance(1, 2) ? 'F' : 'S') : "FST"[r.below(3)];
        f.keep = (int)r.below(20);
        P.out.push_back(f);
      }
      P.dead = P.mode == 2 ? 1 : (int)r.below(2);
      if (P.mode == 2) for (auto& f : P.out) if (f.kind == 'S') f.keep++;
    }
  }
  // a file buffer, the C library's or the stream's own, may hold on to what it failed to write
  if (r.chance(1, 2) && (P.alloc >= 0 || (P.mode == 0 && !P.out.empty()))) P.again = r.chance(1, 2) ? P.sc : (int)r.below(dbg_scenario_count);
  if (mode == "C04" && r.chance(1, 6) && P.mode != 1) P.kill = (int)r.below(wantlen + 1);
}
}  // namespace

int main(int argc, char** argv)
{
  shm_fd = memfd_create("shared", 0);
  out_fd = memfd_create("out", 0);
  if (shm_fd < 0 || out_fd < 0 || ftruncate(shm_fd, sizeof(Shared))) return 3;
  S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, shm_fd, 0);
  char self[4096];
  ssize_t sl = readlink("/proc/self/exe", self, sizeof self - 1);
  if (sl < 0) return 3;
  self[sl] = 0;
  std::string cmd = argc > 1 ? argv[1] : "";
  if (cmd == "list") { for (int i = 0; i < dbg_scenario_count; ++i) printf("%s\n", dbg_scenarios[i].name); return 0; }
  if (cmd == "replay" && argc > 3)
  {
    if (!parse(argv[3])) return 3;
    Outcome o = run_one(argv[2], self);
    printf("%s hash=%016llx\n", o.viol ? "VIOL" : "OK", (unsigned long long)o.hash);
    if (o.viol) printf("what %s\n", o.what.c_str());
    return 0;
  }
  if (argc > 5 || (cmd == "show" && argc > 4))
  {
    std::string mode = argv[2];
    uint64_t seed = strtoull(argv[3], 0, 10), from = strtoull(argv[4], 0, 10), count = cmd == "show" ? 1 : strtoull(argv[5], 0, 10);
    std::map<std::string, uint64_t> c;
    std::set<uint64_t> distinct;
    for (uint64_t i = from; i < from + count; ++i)
    {
      generate(mode, seed, i);
      if (cmd == "show") { printf("%s\n", describe().c_str()); return 0; }
      Outcome o = run_one(mode, self);
      if (cmd == "hash") { printf("%llu %016llx\n", (unsigned long long)i, (unsigned long long)o.hash); continue; }
      c["runs"]++;
      c["alloc_faults"] += S->alloc_fired;
      c["out_faults"] += S->out_fired;
      c["limit_faults"] += P.mode == 1 && P.limit >= 0 && P.limit < (int)dbg_scenarios[P.sc].expect_len;
      c["kills"] += S->killed;
      c["handler_crashes"] += S->handler_ran && P.handler;
      c["deliveries"] += S->delivered_calls;
      c["exceptions"] += S->caught;
      c["second_creations"] += S->second;
      c["ctx_thread"] += P.ctx == 1;
      c["ctx_static"] += P.ctx == 2;
      c["bytes"] += S->len;
      if (S->alloc_fired || S->out_fired || S->killed || P.handler || P.limit >= 0)
      {
        // the situation: where in which report which fault met which environment
        uint64_t h = o.hash ^ ((uint64_t)P.mode * 7 + P.ctx * 31 + P.exc * 101 + P.handler * 1009 + P.form * 10007) * 0x9E3779B97F4A7C15ull;
        distinct.insert(h);
      }
      if (o.viol)
      {
        printf("VIOL index=%llu hash=%016llx\nwhat %s\nparams %s\n", (unsigned long long)i, (unsigned long long)o.hash, o.what.c_str(), describe().c_str());
        c["viol"]++;
        break;
      }
    }
    if (cmd == "run")
    {
      printf("HASHES");
      for (uint64_t h : distinct) printf(" %llx", (unsigned long long)h);
      printf("\nSTATS");
      for (auto& k : c) printf(" %s=%llu", k.first.c_str(), (unsigned long long)k.second);
      printf("\n");
    }
    return 0;
  }
  return 3;
}
// after everything else in this file
static StaticContext static_context;
