#include <sys/personality.h>
#include "mc.h"
#include <dlfcn.h>
#include <execinfo.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <exception>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <unordered_map>
#include <unordered_set>
#include "nlohmann/json.hpp"
#include "spdlog/spdlog.h"
#include "yacl/crypto/rand/rand.h"

namespace mc {
namespace {
template <class F> F Real(const char* name) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, name)); }
#define REAL(name) ([]() { static auto f = Real<decltype(&::name)>(#name); return f; }())

long RawFutex(volatile int* a, int op, int v) {
  long r; register long r10 asm("r10") = 0;
  asm volatile("syscall" : "=a"(r) : "a"(SYS_futex), "D"(a), "S"(op), "d"(v), "r"(r10) : "rcx", "r11", "memory");
  return r;
}

void RawYield() { long r; asm volatile("syscall" : "=a"(r) : "a"(SYS_sched_yield) : "rcx", "r11", "memory"); }
long RawKill(long pid, long tid) { long r; asm volatile("syscall" : "=a"(r) : "a"(SYS_tgkill), "D"(pid), "S"(tid), "d"(0) : "rcx", "r11", "memory"); return r; }

enum St : uint8_t { RUN, BLOCKED, DONE, FROZEN };
struct Thread {
  int id = 0, party = 0;
  St st = RUN;
  const void* wait = nullptr;
  uint64_t deadline = 0;  // 0 = none (virtual ns)
  bool timed_out = false;
  volatile int baton = 0;
  int atomic = 0, guard = 0;
  pthread_t pt{};
  void* (*fn)(void*) = nullptr;
  void* arg = nullptr;
  const char* why = "";
};
struct Shared {  // child -> worker
  int status;  // 0 running/unknown 1 ok 2 fail 3 deadlock 4 horizon 5 diverged
  uint32_t ntrace;
  uint64_t npoints, evals, states, nsteps;
  uint32_t outlen, keylen, msglen, samplelen, nnt;
  uint32_t nshared; uint64_t shared[1 << 16];
  char out[1 << 16], key[512], msg[1 << 16], sample[1 << 14];
  uint64_t nt[1 << 14];
  struct { uint8_t choice, n, kind, thread; } trace[1 << 20];
};
Shared* sh = nullptr;
std::vector<uint8_t> g_prefix;
std::vector<Thread*>* g_thr = nullptr;
thread_local Thread* self = nullptr;
bool g_on = false;
Opts g_opts;
uint64_t g_now = 0;       // virtual ns
int g_same = 0;           // consecutive points of one thread
std::unordered_set<void*>* g_once = nullptr;
thread_local int t_party = 0;
std::string g_scratch;

bool On() { return g_on && self != nullptr && self->guard == 0; }

void PutStr(char* dst, uint32_t cap, uint32_t* len, const std::string& s) { *len = std::min<size_t>(s.size(), cap); memcpy(dst, s.data(), *len); }
void LearnFlush(); void LearnStack(); void HbAcq(const void*); void HbRel(const void*);
[[noreturn]] void End(int st, const std::string& key, const std::string& msg) {
  LearnFlush();
  if (sh->status == 0) {
    PutStr(sh->key, sizeof sh->key, &sh->keylen, key);
    PutStr(sh->msg, sizeof sh->msg, &sh->msglen, msg);
    sh->status = st;
  }
  _exit(0);
}
std::string DumpThreads() {
  std::string s;
  for (auto* t : *g_thr) s += fmt::format("[T{} party {} {} {}]", t->id, t->party, t->st == RUN ? "run" : t->st == BLOCKED ? "blocked" : t->st == DONE ? "done" : "frozen", t->why);
  return s;
}
// ---- choices
int Pick(int n, int kind, int tid) {  // n >= 2 alternatives, 0 is the default
  uint32_t i = sh->ntrace;
  if (i >= sizeof(sh->trace) / sizeof(sh->trace[0])) return 0;
  int c = 0;
  if (i < g_prefix.size()) {
    c = g_prefix[i];
    if (c >= n) End(5, "diverged", fmt::format("choice {} of {} at {}", c, n, i));
  }
  sh->trace[i] = {(uint8_t)c, (uint8_t)std::min(n, 255), (uint8_t)kind, (uint8_t)tid};
  sh->ntrace = i + 1;
  return c;
}
volatile int g_exiting = 0;
void Handoff(Thread* to) {
  Thread* me = self;
  if (to == me) return;
  to->baton = 1;
  RawFutex(&to->baton, FUTEX_WAKE_PRIVATE, 1);
}
void AwaitBaton(Thread* me) {
  while (me->baton == 0) RawFutex(&me->baton, FUTEX_WAIT_PRIVATE, 0);
  me->baton = 0;
  // what a finished thread still does on its way out must not overlap with us
  if (int e = g_exiting) { g_exiting = 0; while (RawKill(getpid(), e) == 0) RawYield(); }
}
// choose who runs next. cur_enabled: may the current thread continue?
void Switch(int kind) {
  Thread* me = self;
  if (++sh->npoints > g_opts.max_points) End(4, "horizon", "execution exceeded the point horizon (livelock?) " + DumpThreads());
  auto& T = *g_thr;
  int n = T.size();
  static std::vector<Thread*> en;
  en.clear();
  bool me_run = me->st == RUN;
  bool fair = me_run && ++g_same > 3000;   // only spinners run this long without blocking
  for (int k = 0; k < n; ++k) {
    Thread* t = T[(me->id + k) % n];
    if (t->st == RUN) en.push_back(t);
  }
  if (g_opts.policy && en.size() > 1) std::sort(en.begin() + (me_run ? 1 : 0), en.end(), [](Thread* a, Thread* b) { return g_opts.policy == 1 ? a->id < b->id : a->id > b->id; });
  if (fair && en.size() > 1) { std::rotate(en.begin(), en.begin() + 1, en.end()); g_same = 0; }
  int timed = 0;
  Thread* first_timed = nullptr;
  for (auto* t : T) if (t->st == BLOCKED && t->deadline) { ++timed; if (!first_timed || t->deadline < first_timed->deadline) first_timed = t; }
  if (en.empty()) {
    if (!first_timed) {
      bool all_frozen_or_done = true;
      for (auto* t : T) if (t->st == BLOCKED) all_frozen_or_done = false;
      if (all_frozen_or_done) End(3, "deadlock", "no thread left " + DumpThreads());
      End(3, "deadlock", "no thread can run: " + DumpThreads());
    }
    g_now = std::max(g_now, first_timed->deadline);
    first_timed->st = RUN; first_timed->timed_out = true; first_timed->deadline = 0;
    en.push_back(first_timed);
    first_timed = nullptr;
  }
  int alts = en.size() + (g_opts.early_timeouts && first_timed ? 1 : 0);
  int c = 0;
  if (alts > 1 && ((g_opts.points >> kind) & 1)) c = Pick(alts, kind, me->id);
  Thread* to;
  if (c < (int)en.size()) to = en[c];
  else { to = first_timed; g_now = std::max(g_now, to->deadline); to->st = RUN; to->timed_out = true; to->deadline = 0; }
  if (to != me) {
    g_same = 0;
    Handoff(to);
    if (me->st == DONE) return;
    AwaitBaton(me);
    if (me->st == FROZEN) for (;;) pause();
  }
}
void Point(int kind) {
  Thread* me = self;
  if (me->atomic > 0) return;
  if (!((g_opts.points >> kind) & 1)) return;
  ++sh->nsteps;
  Switch(kind);
}
uint64_t g_spins = 0;
// the current thread re-reads an unchanged atomic: let somebody else run (never a choice)
void SpinYield() {
  Thread* me = self;
  if (me->atomic > 0) return;
  if (++sh->npoints > g_opts.max_points) End(4, "horizon", "execution exceeded the point horizon (livelock?) " + DumpThreads());
  auto& T = *g_thr;
  int n = T.size();
  Thread* to = nullptr; Thread* first_timed = nullptr;
  for (int k = 1; k < n && !to; ++k) { Thread* t = T[(me->id + k) % n]; if (t->st == RUN) to = t; }
  for (auto* t : T) if (t->st == BLOCKED && t->deadline && (!first_timed || t->deadline < first_timed->deadline)) first_timed = t;
  if (!to && first_timed && g_spins > 1000) { to = first_timed; g_now = std::max(g_now, to->deadline); to->st = RUN; to->timed_out = true; to->deadline = 0; }
  if (!to) { if (++g_spins > 5000) { me->why = "spinning"; End(3, "deadlock", "a thread spins and no other thread can run: " + DumpThreads()); } return; }
  g_spins = 0; g_same = 0;
  Handoff(to);
  AwaitBaton(me);
  if (me->st == FROZEN) for (;;) pause();
}
bool Block(const void* addr, uint64_t deadline, const char* why) {  // true = woken, false = timed out
  Thread* me = self;
  me->st = BLOCKED; me->wait = addr; me->deadline = deadline; me->timed_out = false; me->why = why;
  Switch(kWake);
  me->wait = nullptr; me->deadline = 0; me->why = "";
  return !me->timed_out;
}
int Wake(const void* addr, int n) {
  int k = 0;
  for (auto* t : *g_thr) {
    if (k >= n) break;
    if (t->st == BLOCKED && t->wait == addr) { t->st = RUN; t->deadline = 0; ++k; }
  }
  return k;
}
void* Tramp(void* p) {
  Thread* t = static_cast<Thread*>(p);
  self = t; t_party = t->party;
  AwaitBaton(t);
  if (t->st == FROZEN) for (;;) pause();
  LearnStack();
  HbAcq(t);
  void* r = t->fn(t->arg);
  HbRel(t);
  t->st = DONE;
  Wake(t, 1 << 30);
  g_exiting = (int)syscall(SYS_gettid);
  Switch(kWake);
  self = nullptr;
  return r;
}
extern "C" char __executable_start, etext;
const char* ExeStart() { return &__executable_start; }
bool FromExe(void* ra) { return ra >= &__executable_start && ra < &etext; }
uint64_t ToNs(const timespec* ts) { return ts->tv_sec * 1000000000ull + ts->tv_nsec; }
constexpr uint64_t kRealBase = 1700000000ull * 1000000000ull, kMonoBase = 100000ull * 1000000000ull;
uint64_t FromAbs(clockid_t c, const timespec* ts) {
  uint64_t b = c == CLOCK_REALTIME ? kRealBase : kMonoBase, v = ToNs(ts);
  return std::max<uint64_t>(1, v > b ? v - b : 1);
}
struct G { G() { if (self) ++self->guard; } ~G() { if (self) --self->guard; } };
}  // namespace

// ---- file-system crash injection
namespace {
struct Fs {
  bool armed = false; std::string dir; int party = -1; long crash_at = -1; int torn = 0;
  std::vector<FsOp> log; bool crashed = false; std::function<void()> on_crash;
  std::unordered_map<int, std::string> fds;
} fs;
bool FsMine() { return fs.armed && !fs.crashed && (fs.party < 0 || fs.party == t_party); }
bool Under(const char* p) { return p && strncmp(p, fs.dir.c_str(), fs.dir.size()) == 0; }
void DoCrash() {
  fs.crashed = true;
  if (fs.on_crash) {
    // one party dies: freeze its threads, tell the world, let the others run
    auto f = fs.on_crash;
    if (g_on && self) {
      ++self->guard;
      f();
      --self->guard;
      for (auto* t : *g_thr) if (t->party == t_party && t != self && t->st != DONE) { t->st = FROZEN; Wake(t, 1 << 30); }
      for (auto* t : *g_thr) if (t->st == BLOCKED && t->party != t_party) { t->st = RUN; t->deadline = 0; }  // spurious wake-up: predicates are re-evaluated
      self->st = FROZEN; self->why = "crashed"; Wake(self, 1 << 30);
      Switch(kWake);
      for (;;) pause();
    }
    f();
  }
  _exit(77);
}
thread_local bool t_fserr = false;
bool FsErr() { if (!t_fserr) return false; t_fserr = false; errno = ENOSPC; return true; }
// returns true when the operation must be performed only partially (`*n` adjusted) and then crash
bool FsStep(const char* op, const std::string& path, size_t* n) {
  long i = fs.log.size();
  fs.log.push_back({op, path.substr(fs.dir.size()), n ? *n : 0});
  if (fs.torn >= 3) {   // no crash: the operation fails (3: this one only, 4: this one and all later ones)
    t_fserr = fs.crash_at >= 0 && (fs.torn == 3 ? i == fs.crash_at : i >= fs.crash_at) && strcmp(op, "unlink") != 0 && strcmp(op, "rmdir") != 0;
    return false;
  }
  if (fs.crash_at < 0 || i != fs.crash_at) return false;
  if (n) { if (fs.torn == 0) *n = 0; else if (fs.torn == 1) *n /= 2; return true; }
  if (fs.torn == 0) DoCrash();   // before the operation
  return true;                   // after the operation
}
}  // namespace
extern "C" char data_start;
static char& __data_start_of_exe() { return data_start; }
// a thread which only re-reads the same values from up to four atomics is spinning
namespace {
// Happens-before over the default execution (vector clocks: locks, conditions, threads,
// atomics, futexes). Memory whose conflicting accesses are all ordered cannot influence the
// result through its own interleaving, so only unordered memory and shared atomics get points.
constexpr int kVc = 256;
struct Vc { uint32_t c[kVc]; };
struct Touched { uintptr_t key; uint32_t wclk; int16_t wtid; bool racy, awrite, amulti; int16_t atid; struct { int16_t tid; uint32_t clk; } r[6]; };
struct SyncObj { uintptr_t key; Vc v; };
constexpr size_t kTouched = 1 << 20, kSync = 1 << 14;
// a stack is reused by later threads: generation of the thread which runs on it
struct StackGen { uintptr_t top; uint64_t gen; };
struct Learner { Vc t[kVc]; StackGen st[64]; uint64_t gens; int nst; SyncObj s[kSync]; Touched m[kTouched]; };
Learner* g_learn = nullptr;
template <class E> E* LearnFind(E* tab, size_t n, uintptr_t k) {
  size_t i = (k * 0x9E3779B97F4A7C15ull) >> 40 & (n - 1);
  for (size_t j = 0; j < n && tab[i].key && tab[i].key != k; ++j) i = (i + 1) & (n - 1);
  if (tab[i].key && tab[i].key != k) return nullptr;
  tab[i].key = k; return &tab[i];
}
uintptr_t LearnKey(const void* p) {
  auto a = (uintptr_t)p; uint64_t g = 0;
  for (int i = 0; i < g_learn->nst; ++i) if (a < g_learn->st[i].top + 8192 && a + (8u << 20) > g_learn->st[i].top + 16384) { g = g_learn->st[i].gen; break; }
  return a >> 3 | g << 48;
}
void LearnStack() {   // the current thread has just started
  if (!g_learn) return;
  char here; auto a = (uintptr_t)&here; int i = 0;
  while (i < g_learn->nst && (g_learn->st[i].top + (1 << 15) < a || g_learn->st[i].top > a + (1 << 15))) ++i;
  if (i == 64) return;
  if (i == g_learn->nst) { g_learn->nst++; g_learn->st[i].top = a; }
  g_learn->st[i].gen = ++g_learn->gens;
}
void HbAcq(const void* o) {
  if (!g_learn || !self || self->id >= kVc) return;
  auto* s = LearnFind(g_learn->s, kSync, (uintptr_t)o); if (!s) return;
  auto& v = g_learn->t[self->id]; for (int i = 0; i < kVc; ++i) v.c[i] = std::max(v.c[i], s->v.c[i]);
}
void HbRel(const void* o) {
  if (!g_learn || !self || self->id >= kVc) return;
  auto* s = LearnFind(g_learn->s, kSync, (uintptr_t)o); if (!s) return;
  auto& v = g_learn->t[self->id]; if (!v.c[self->id]) v.c[self->id] = 1;
  for (int i = 0; i < kVc; ++i) s->v.c[i] = std::max(v.c[i], s->v.c[i]);
  ++v.c[self->id];
}
void LearnTouch(uintptr_t k, int tid, bool write, bool atomic, const void* pc) {
  struct Tell { Touched* q = nullptr; const void* pc; ~Tell() { if (q && q->racy && getenv("MC_LEARN")) { Dl_info d{}; dladdr(pc, &d); fprintf(stderr, "LEARN %lx pc %lx %s\n", q->key << 3, (long)pc, d.dli_sname ? d.dli_sname : "?"); } } } tell{nullptr, pc};
  if (tid >= kVc) return;
  auto* q = LearnFind(g_learn->m, kTouched, k); if (!q || q->racy) return; tell.q = q;
  auto& v = g_learn->t[tid]; if (!v.c[tid]) v.c[tid] = 1;
  if (atomic) {
    if (q->atid && q->atid != tid + 1) q->amulti = true;
    q->atid = tid + 1; q->awrite |= write;
    if (q->awrite && q->amulti) q->racy = true;
    return;
  }
  auto seen = [&](int t1, uint32_t clk) { return t1 == 0 || t1 == tid + 1 || v.c[t1 - 1] >= clk; };
  if (!seen(q->wtid, q->wclk)) q->racy = true;
  if (write) {
    for (auto& r : q->r) { if (!seen(r.tid, r.clk)) q->racy = true; r.tid = 0; }
    q->wtid = tid + 1; q->wclk = v.c[tid];
  } else {
    int slot = -1;
    for (int i = 0; i < 6; ++i) if (q->r[i].tid == tid + 1) slot = i;
    for (int i = 0; i < 6 && slot < 0; ++i) if (seen(q->r[i].tid, q->r[i].clk)) slot = i;
    if (slot < 0) slot = 0;
    q->r[slot].tid = tid + 1; q->r[slot].clk = v.c[tid];
  }
}
void LearnFlush() {
  if (!g_learn) return;
  sh->nshared = 0;
  for (size_t i = 0; i < kTouched; ++i) if (g_learn->m[i].racy && sh->nshared < sizeof(sh->shared) / 8) sh->shared[sh->nshared++] = g_learn->m[i].key & ((1ull << 48) - 1);
}
}  // namespace
struct SpinTab { const void* a[4]; uint64_t v[4]; int n = 0, pos = 0, rep = 0; void Reset() { n = pos = rep = 0; } };
thread_local SpinTab t_spin;
// kind: 0 plain, 1 atomic, 2 atomic read-modify-write of 32 bits (reference counts: order, but no point)
void MemPoint(const void* a, bool atomic_load, uint64_t val, bool write, int kind, const void* pc) {
  if (!On()) return;
  if (atomic_load) {
    int i = 0; while (i < t_spin.n && t_spin.a[i] != a) ++i;
    if (i == t_spin.n) { if (t_spin.n < 4) ++t_spin.n; else { i = t_spin.pos; t_spin.pos = (t_spin.pos + 1) % 4; } t_spin.a[i] = a; t_spin.v[i] = val; t_spin.rep = 0; }
    else if (t_spin.v[i] != val) { t_spin.v[i] = val; t_spin.rep = 0; }
    else if (++t_spin.rep >= 3 * t_spin.n) { SpinYield(); return; }
  } else if (write) t_spin.Reset();
  if (!atomic_load) {   // thread-private and constant memory cannot carry an interleaving
    char here; ptrdiff_t d = (const char*)a - &here;
    if (!g_opts.shared_mem && d > -4096 && d < (1 << 18)) return;
    if (!write && a >= (const void*)ExeStart() && a < (const void*)&__data_start_of_exe()) return;
  }
  if (g_opts.shared_mem) {   // only memory that two threads touch, one of them writing, in the default execution
    if (g_learn) {
      if (kind != 2) LearnTouch(LearnKey(a), self->id, write, kind != 0, pc);
      if (kind) { HbAcq(a); HbRel(a); }
      return;
    }
    if (!std::binary_search(sh->shared, sh->shared + sh->nshared, (uintptr_t)a >> 3)) return;
  }
  Point(kMem);
}
void FsArm(const std::string& dir, int party, long crash_at, int torn, std::function<void()> on_crash) {
  fs.armed = true; fs.dir = dir; fs.party = party; fs.crash_at = crash_at; fs.torn = torn; fs.log.clear(); fs.crashed = false; fs.on_crash = std::move(on_crash);
}
void FsDisarm() { fs.armed = false; }
const std::vector<FsOp>& FsLog() { return fs.log; }
bool Crashed() { return fs.crashed; }

void Fail(const std::string& key, const std::string& msg) { End(2, key, msg); }
void Check(bool ok, const std::string& key, const std::function<std::string()>& msg) { if (!ok) Fail(key, msg()); }
void Out(const std::string& s) {
  std::string cur(sh->out, sh->outlen);
  PutStr(sh->out, sizeof sh->out, &sh->outlen, cur + s + ";");
}
void Count(uint64_t n) { sh->evals += n; }
void States(uint64_t n) { sh->states += n; }
void Sample(const std::string& s) { if (!sh->samplelen) PutStr(sh->sample, sizeof sh->sample, &sh->samplelen, s); }
void Nontrivial(uint64_t h) {
  // exact up to the table size, then counted only
  uint32_t k = sh->nnt;
  static std::unordered_set<uint64_t>* seen = new std::unordered_set<uint64_t>;
  if (!seen->insert(h).second) return;
  if (k < sizeof(sh->nt) / 8) sh->nt[k] = h;
  sh->nnt = k + 1;
}
int Choose(int n, int kind) {
  if (n <= 1) return 0;
  return Pick(n, kind, self ? self->id : 0);
}
void SetParty(int p) { t_party = p; if (self) self->party = p; }
int Party() { return t_party; }
std::function<void(int, const unsigned char*, int)> g_on_rand;
void Yield() { if (On()) Point(kUser); }
uint64_t NowNs() { return g_now; }
bool Active() { return g_on; }
std::thread Spawn(int party, std::function<void()> f) {
  int old = t_party; t_party = party;
  std::thread t(std::move(f));
  t_party = old;
  return t;
}
std::vector<std::string> RunParties(const std::vector<std::function<void()>>& ps) {
  std::vector<std::string> err(ps.size());
  std::vector<std::thread> th;
  for (size_t i = 0; i < ps.size(); ++i) {
    th.push_back(Spawn(i, [&, i] {
      try { ps[i](); } catch (const std::exception& e) { err[i] = e.what(); if (err[i].empty()) err[i] = "exception"; }
      catch (...) { err[i] = "unknown exception"; }
    }));
  }
  for (size_t i = 0; i < th.size(); ++i) {
    if (On()) {
      Thread* x = nullptr;
      for (auto* y : *g_thr) if (y->pt && pthread_equal(y->pt, th[i].native_handle())) x = y;
      while (x && x->st != DONE && x->st != FROZEN) Block(x, 0, "join");
      if (x && x->st == FROZEN) { err[i] = "CRASHED"; new std::thread(std::move(th[i])); continue; }
    }
    th[i].join();
  }
  return err;
}
std::string ScratchDir() { return g_scratch; }

// a run that writes without end must not fill the scratch file system
static void LimitFiles() { struct rlimit fl{256u << 20, 256u << 20}; setrlimit(RLIMIT_FSIZE, &fl); }

SubResult Sub(const std::function<std::string()>& f, int cpu_s) {
  SubResult r;
  int p[2];
  if (pipe(p) != 0) End(5, "internal", "pipe");
  pid_t pid = ::fork();
  if (pid == 0) {
    close(p[0]);
    struct rlimit rl{(rlim_t)cpu_s, (rlim_t)cpu_s + 2};
    setrlimit(RLIMIT_CPU, &rl);
    LimitFiles();
    std::string o = f();
    nlohmann::json j; j["o"] = o; j["c"] = fs.crashed;
    auto& a = j["l"]; a = nlohmann::json::array();
    for (auto& x : fs.log) a.push_back({x.op, x.path, x.n});
    std::string s = j.dump(-1, ' ', false, nlohmann::json::error_handler_t::replace);
    size_t off = 0;
    auto w = REAL(write);
    while (off < s.size()) { ssize_t k = w(p[1], s.data() + off, s.size() - off); if (k <= 0) break; off += k; }
    _exit(0);
  }
  close(p[1]);
  std::string s; char buf[65536]; ssize_t k;
  while ((k = read(p[0], buf, sizeof buf)) > 0) s.append(buf, k);
  close(p[0]);
  waitpid(pid, &r.status, 0);
  r.crashed = WIFEXITED(r.status) && WEXITSTATUS(r.status) == 77;
  if (sh->status != 0) _exit(0);   // the child reported a violation itself
  if (WIFEXITED(r.status) && WEXITSTATUS(r.status) == 0 && !s.empty()) {
    auto j = nlohmann::json::parse(s, nullptr, false);
    if (!j.is_discarded()) {
      r.ok = true; r.out = j["o"]; r.crashed = j["c"];
      for (auto& x : j["l"]) r.log.push_back({x[0], x[1], x[2]});
    }
  }
  return r;
}

// ---- one execution ---------------------------------------------------------
namespace {
struct Res { int status; std::string key, msg, out, sample; std::vector<uint8_t> choices, ns; uint64_t points, evals, states, steps; std::vector<uint64_t> nt; uint64_t nnt; };

void OnFault(int sig) {
  void* b[64]; int n = backtrace(b, 64);
  backtrace_symbols_fd(b, n, 2);
  signal(sig, SIG_DFL); raise(sig);
}
void ChildMain(const std::function<void()>& body, const Opts& o) {
  struct rlimit rl{(rlim_t)o.cpu_s, (rlim_t)o.cpu_s + 5};
  setrlimit(RLIMIT_CPU, &rl);
  LimitFiles();
  struct rlimit core{0, 0};
  setrlimit(RLIMIT_CORE, &core);
  if (getenv("MC_BT")) for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGXCPU, SIGXFSZ}) signal(s, OnFault);
  shim::RngReset(o.seed);
  g_opts = o;
  g_thr = new std::vector<Thread*>;
  g_once = new std::unordered_set<void*>;
  auto* t = new Thread; t->pt = pthread_self(); t->party = -1;
  g_thr->push_back(t);
  t_party = -1;
  if (o.sched) { self = t; g_on = true; }
  try { body(); }
  catch (const std::exception& e) { End(2, "uncaught", std::string("uncaught exception: ") + e.what()); }
  g_on = false;
  LearnFlush();
  if (sh->status == 0) sh->status = 1;
  _exit(0);
}
void RmRf(const std::string& d) { std::error_code ec; std::filesystem::remove_all(d, ec); }

Res RunOnce(const std::function<void()>& body, const Opts& o, const std::vector<uint8_t>& prefix) {
  sh->status = 0; sh->ntrace = 0; sh->npoints = sh->evals = sh->states = sh->nsteps = 0; sh->outlen = sh->keylen = sh->msglen = sh->samplelen = sh->nnt = 0;
  g_prefix = prefix;
  RmRf(g_scratch);
  std::filesystem::create_directories(g_scratch);
  pid_t pid = ::fork();
  if (pid == 0) { setpgid(0, 0); ChildMain(body, o); }
  // real-time guard: generous, the CPU limit inside is the primary one
  int st = 0; bool killed = false;
  auto t0 = std::chrono::steady_clock::now();
  int us = 50;
  for (;;) {
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) break;
    double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    if (el > o.cpu_s * 3 + 20 && !killed) { killed = true; kill(-pid, SIGKILL); kill(pid, SIGKILL); }
    usleep(us); if (us < 2000) us += us / 4 + 1;
  }
  Res r;
  r.status = sh->status; r.key.assign(sh->key, sh->keylen); r.msg.assign(sh->msg, sh->msglen); r.out.assign(sh->out, sh->outlen); r.sample.assign(sh->sample, sh->samplelen);
  r.points = sh->npoints; r.evals = sh->evals; r.states = sh->states; r.steps = sh->nsteps;
  for (uint32_t i = 0; i < sh->ntrace; ++i) { r.choices.push_back(sh->trace[i].choice); r.ns.push_back(sh->trace[i].n); }
  r.nnt = sh->nnt; r.nt.assign(sh->nt, sh->nt + std::min<size_t>(sh->nnt, sizeof(sh->nt) / 8));
  if (r.status == 0 || (WIFSIGNALED(st))) {
    if (WIFSIGNALED(st)) {
      int s = WTERMSIG(st);
      if (killed) { r.status = 7; r.key = "hang"; r.msg = "execution did not end within the time limit"; }
      else if (s == SIGXCPU || s == SIGKILL) { r.status = 7; r.key = "hang"; r.msg = "execution exceeded its CPU limit"; }
      else { r.status = 6; r.key = "crash"; r.msg = fmt::format("process died on signal {} ({})", s, strsignal(s)); }
    } else { r.status = 6; r.key = "exit"; r.msg = fmt::format("process exited with status {}", WEXITSTATUS(st)); }
  }
  return r;
}
// one run that only records which memory is shared (the same addresses are used in every run)
void Learn(const std::function<void()>& body, const Opts& o) {
  sh->nshared = 0;
  if (!o.shared_mem) return;
  // mapped once and for good: the mapping must not move anything
  static auto* mem = static_cast<Learner*>(mmap(nullptr, sizeof(Learner), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  g_learn = mem; sh->nshared = 0;
  RunOnce(body, o, {});
  g_learn = nullptr;
  std::sort(sh->shared, sh->shared + sh->nshared);
}
std::string SchedStr(const std::vector<uint8_t>& c) {  // run-length: deviations only
  std::string s;
  for (size_t i = 0; i < c.size(); ++i) if (c[i]) s += fmt::format("{}{}:{}", s.empty() ? "" : ",", i, c[i]);
  return s;
}
std::vector<uint8_t> SchedParse(const std::string& s) {
  std::vector<uint8_t> v;
  std::stringstream ss(s); std::string e;
  while (std::getline(ss, e, ',')) { size_t i = std::stoul(e), k = std::stoul(e.substr(e.find(':') + 1)); v.resize(std::max(v.size(), i + 1), 0); v[i] = k; }
  return v;
}
void WriteAll(int fd, const std::string& s) { size_t o = 0; while (o < s.size()) { ssize_t k = write(fd, s.data() + o, s.size() - o); if (k <= 0) _exit(3); o += k; } }
}  // namespace

Suite::Suite(int argc, char** argv, std::string name) : name_(std::move(name)) {
  if (!getenv("MC_REEXEC")) {   // the same addresses in every run
    setenv("MC_REEXEC", "1", 1); setenv("GLIBC_TUNABLES", "glibc.malloc.arena_max=1:glibc.malloc.tcache_count=0", 1);
    personality(0x0040000 /* ADDR_NO_RANDOMIZE */);
    execv("/proc/self/exe", argv);
  }
  auto* t = getenv("VERIF_TIER");
  quick_ = !(t && std::string(t) == "thorough");
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i]; auto next = [&] { return i + 1 < argc ? std::string(argv[++i]) : std::string(); };
    if (a == "--report") report_ = next(); else if (a == "--case") replay_case_ = next(); else if (a == "--sched") replay_sched_ = next();
    else if (a == "--only") only_ = next(); else if (a == "--workers") workers_ = std::stoi(next()); else if (a == "--budget") budget_s_ = std::stod(next());
    else if (a == "--thorough") quick_ = false; else if (a == "--quick") quick_ = true;
  }
  spdlog::set_level(getenv("MC_LOG") ? spdlog::level::info : spdlog::level::off);
  setenv("OMP_NUM_THREADS", "1", 1);
  sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  if (sh == MAP_FAILED) { perror("mmap"); exit(2); }
}
void Suite::Add(std::string id, Opts o, std::function<void()> body) {
  if (!only_.empty() && id.find(only_) == std::string::npos) return;
  cases_.push_back({std::move(id), o, std::move(body)});
}
static std::string g_root;
void Suite::Worker(int w, int n, int fd) {
  cpu_set_t cs; CPU_ZERO(&cs); CPU_SET(w % std::max(1L, sysconf(_SC_NPROCESSORS_ONLN)), &cs);
  sched_setaffinity(0, sizeof cs, &cs);
  g_scratch = g_root + "/w" + std::to_string(w);
  sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  auto t0 = std::chrono::steady_clock::now();
  auto elapsed = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
  size_t idx = 0;
  for (auto& c : cases_) {
    size_t my = idx++;
    if (!c.o.split && (int)(my % n) != w) continue;
    nlohmann::json j;
    uint64_t execs = 0, points = 0, evals = 0, states = 0, steps = 0, nnt = 0, maxlen = 0; bool capped = false; int unrepro = 0;
    std::unordered_set<uint64_t> outs, nts; std::string sample; nlohmann::json viol = nlohmann::json::array(); std::vector<std::string> outsamples;
    std::deque<std::pair<std::vector<uint8_t>, int>> work;  // prefix, deviations used
    work.push_back({{}, 0});
    Learn(c.body, c.o);
    std::set<std::string> keys;
    uint64_t root_children = 0; int done_delay = 0;
    while (!work.empty()) {
      auto [prefix, used] = std::move(work.front()); work.pop_front();
      if ((budget_s_ > 0 && elapsed() > budget_s_) || (c.o.max_execs && execs >= c.o.max_execs)) { capped = true; break; }
      done_delay = used;
      Res r = RunOnce(c.body, c.o, prefix);
      bool count = !(c.o.split && w != 0 && prefix.empty());
      if (count) {
        ++execs; points += r.points; evals += r.evals; states += r.states; steps += r.steps; nnt += r.nnt;
        for (auto h : r.nt) nts.insert(h);
        if (outs.insert(std::hash<std::string>()(r.out + r.key)).second && outsamples.size() < 3) outsamples.push_back(r.out.substr(0, 300));
        if (sample.empty()) sample = r.sample;
      }
      maxlen = std::max<uint64_t>(maxlen, r.choices.size());
      if (r.status != 1 && count) {
        // replay before report
        bool same = true;
        for (int k = 0; k < 2 && same; ++k) {
          Opts o2 = c.o; if (r.status == 7) o2.cpu_s *= 3;
          Res q = RunOnce(c.body, o2, r.choices);
          if (q.status != r.status || q.key != r.key) same = false;
        }
        if (!same) { if (!unrepro++ && getenv("MC_UNREPRO")) fprintf(stderr, "UNREPRO %s %s %d %s %s\n", c.id.c_str(), SchedStr(r.choices).c_str(), r.status, r.key.c_str(), r.msg.c_str()); }
        else if (keys.insert(r.key).second && viol.size() < 40) {
          viol.push_back({{"case", c.id}, {"sched", SchedStr(r.choices)}, {"key", r.key}, {"msg", r.msg.substr(0, 3000)}});
        }
        continue;  // do not extend a failing prefix
      }
      if (used < c.o.delays) {
        for (size_t i = prefix.size(); i < r.choices.size(); ++i) {
          for (int a = 1; a < r.ns[i]; ++a) {
            if (prefix.empty() && c.o.split && (int)(root_children++ % n) != w) continue;
            std::vector<uint8_t> p(r.choices.begin(), r.choices.begin() + i);
            p.push_back(a);
            work.push_back({std::move(p), used + 1});
          }
        }
      }
    }
    j["case"] = c.id; j["execs"] = execs; j["points"] = points; j["evals"] = evals; j["states"] = states; j["steps"] = steps; j["nnt"] = nnt; j["maxlen"] = maxlen; j["capped"] = capped; j["unrepro"] = unrepro;
    j["delays"] = c.o.delays; j["done_delay"] = done_delay;
    j["outs"] = nlohmann::json::array(); for (auto h : outs) j["outs"].push_back(h);
    j["nts"] = nlohmann::json::array(); for (auto h : nts) { if (j["nts"].size() > 3000) break; j["nts"].push_back(h); }
    j["ntn"] = nts.size();
    j["sample"] = sample; j["viol"] = viol; j["outsamples"] = outsamples;
    WriteAll(fd, j.dump(-1, ' ', false, nlohmann::json::error_handler_t::replace) + "\n");
  }
  RmRf(g_scratch);
  WriteAll(fd, "{\"end\":true}\n");
  _exit(0);
}
int Suite::Run() {
  char tmpl[] = "/dev/shm/mcrun.XXXXXX", tmpl2[] = "/tmp/mcrun.XXXXXX";
  if (mkdtemp(tmpl)) g_root = tmpl;
  else if (mkdtemp(tmpl2)) g_root = tmpl2;
  else { perror("mkdtemp"); return 2; }
  struct Clean { ~Clean() { RmRf(g_root); } } clean;
  if (!replay_case_.empty()) {
    g_scratch = g_root + "/r";
    for (auto& c : cases_) if (c.id == replay_case_) {
      Learn(c.body, c.o);
      Res r = RunOnce(c.body, c.o, SchedParse(replay_sched_));
      printf("case=%s status=%d key=%s\n%s\noutcome=%s\npoints=%lu choices=%zu sample=%s\n", c.id.c_str(), r.status, r.key.c_str(), r.msg.c_str(), r.out.c_str(), r.points, r.choices.size(), r.sample.c_str());
      return r.status == 1 ? 0 : 1;
    }
    fprintf(stderr, "no such case\n");
    return 2;
  }
  int n = workers_;
  std::vector<pid_t> pids; std::vector<int> fds;
  for (int w = 0; w < n; ++w) {
    int p[2]; if (pipe(p) != 0) return 2;
    pid_t pid = ::fork();
    if (pid == 0) { close(p[0]); for (int f : fds) close(f); Worker(w, n, p[1]); }
    close(p[1]); pids.push_back(pid); fds.push_back(p[0]);
  }
  std::vector<std::string> bufs(n);
  int open = n;
  while (open) {
    std::vector<pollfd> pf; std::vector<int> ix;
    for (int i = 0; i < n; ++i) if (fds[i] >= 0) { pf.push_back({fds[i], POLLIN, 0}); ix.push_back(i); }
    poll(pf.data(), pf.size(), -1);
    for (size_t k = 0; k < pf.size(); ++k) if (pf[k].revents) {
      char b[65536]; ssize_t r = read(pf[k].fd, b, sizeof b);
      if (r <= 0) { close(pf[k].fd); fds[ix[k]] = -1; --open; } else bufs[ix[k]].append(b, r);
    }
  }
  bool ok = true;
  for (int i = 0; i < n; ++i) { int st; waitpid(pids[i], &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) ok = false; }
  nlohmann::json rep; std::map<std::string, nlohmann::json> cs; std::set<uint64_t> outs, nts; uint64_t execs = 0, points = 0, evals = 0, states = 0, steps = 0, nnt = 0, maxlen = 0, ntn = 0; int ended = 0, unrepro = 0;
  nlohmann::json viol = nlohmann::json::array(), samples = nlohmann::json::array(), capped = nlohmann::json::array();
  for (auto& b : bufs) {
    std::stringstream ss(b); std::string l;
    while (std::getline(ss, l)) {
      auto j = nlohmann::json::parse(l, nullptr, false);
      if (j.is_discarded()) { ok = false; continue; }
      if (j.contains("end")) { ++ended; continue; }
      std::string id = j["case"];
      execs += (uint64_t)j["execs"]; points += (uint64_t)j["points"]; evals += (uint64_t)j["evals"]; states += (uint64_t)j["states"]; steps += (uint64_t)j["steps"]; nnt += (uint64_t)j["nnt"]; maxlen = std::max<uint64_t>(maxlen, j["maxlen"]); unrepro += (int)j["unrepro"];
      for (uint64_t h : j["outs"]) outs.insert(h * 1000003 + std::hash<std::string>()(id));
      for (uint64_t h : j["nts"]) nts.insert(h);
      ntn += (uint64_t)j["ntn"];
      if (j["capped"]) capped.push_back({{"case", id}, {"complete_below_deviation", (int)j["done_delay"]}, {"execs", j["execs"]}});
      for (auto& v : j["viol"]) viol.push_back(v);
      if (!j["sample"].get<std::string>().empty() && samples.size() < 6) samples.push_back(id + ": " + j["sample"].get<std::string>().substr(0, 600));
      else if (samples.size() < 4 && !j["outsamples"].empty()) samples.push_back(id + " -> " + j["outsamples"][0].get<std::string>());
      auto& e = cs[id];
      if (e.is_null()) e = {{"execs", 0}};
      e["execs"] = (uint64_t)e["execs"] + (uint64_t)j["execs"];
    }
  }
  if (ended != n) ok = false;
  rep["suite"] = name_; rep["cases"] = cases_.size(); rep["executions"] = execs; rep["sched_points"] = points; rep["steps"] = steps; rep["evaluations"] = evals; rep["states"] = states; rep["max_choice_points"] = maxlen;
  rep["distinct_outcomes"] = outs.size(); rep["nontrivial"] = std::max<uint64_t>(nts.size(), 0); rep["nontrivial_sum"] = ntn; rep["capped"] = capped; rep["violations"] = viol; rep["samples"] = samples; rep["ok"] = ok; rep["unreproduced"] = unrepro;
  std::vector<std::string> ids; for (auto& [k, v] : cs) ids.push_back(k);
  rep["complete"] = capped.empty();
  std::string s = rep.dump(1);
  if (!report_.empty()) { std::ofstream f(report_); f << s; } else { printf("%s\n", s.c_str()); }
  if (cs.size() != cases_.size()) ok = false;
  return ok ? 0 : 2;
}
}  // namespace mc

// ===================== interposition =======================================
using namespace mc;
extern "C" {
void mc_point(int kind, const void*) { if (On()) Point(kind); }
void mc_atomic_begin() { if (self) ++self->atomic; }
void mc_atomic_end() { if (self) --self->atomic; }

int pthread_create(pthread_t* pt, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
  auto real = REAL(pthread_create);
  if (!On()) return real(pt, a, fn, arg);
  auto* t = new Thread; t->id = g_thr->size(); t->party = t_party; t->fn = fn; t->arg = arg;
  g_thr->push_back(t);
  HbRel(t);
  int r = real(&t->pt, a, Tramp, t);
  if (r != 0) { t->st = DONE; return r; }
  *pt = t->pt;
  Point(kCreate);
  return 0;
}
int pthread_join(pthread_t pt, void** ret) {
  auto real = REAL(pthread_join);
  if (!On()) return real(pt, ret);
  Thread* t = nullptr;
  for (auto* x : *g_thr) if (pthread_equal(x->pt, pt) && x->pt) t = x;
  if (t) while (t->st != DONE) Block(t, 0, "join");
  if (t) { t->pt = 0; HbAcq(t); }
  return real(pt, ret);
}
int pthread_detach(pthread_t pt) {
  auto real = REAL(pthread_detach);
  if (On()) for (auto* x : *g_thr) if (x->pt && pthread_equal(x->pt, pt)) { x->pt = 0; }
  return real(pt);
}
int pthread_mutex_lock(pthread_mutex_t* m) {
  auto real = REAL(pthread_mutex_lock);
  if (!On()) return real(m);
  if (FromExe(__builtin_return_address(0))) Point(kLock);
  int r;
  while ((r = REAL(pthread_mutex_trylock)(m)) == EBUSY) Block(m, 0, "mutex");
  HbAcq(m);
  return r;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (On()) HbRel(m);
  int r = REAL(pthread_mutex_unlock)(m);
  if (On()) Wake(m, 1 << 30);
  return r;
}
#define RW(name, tryname, why) \
  int name(pthread_rwlock_t* m) { \
    if (!On()) return REAL(name)(m); \
    if (FromExe(__builtin_return_address(0))) Point(kLock); \
    int r; \
    while ((r = REAL(tryname)(m)) == EBUSY) Block(m, 0, why); \
    HbAcq(m); \
    return r; \
  }
RW(pthread_rwlock_rdlock, pthread_rwlock_tryrdlock, "rdlock")
RW(pthread_rwlock_wrlock, pthread_rwlock_trywrlock, "wrlock")
int pthread_rwlock_unlock(pthread_rwlock_t* m) { if (On()) HbRel(m); int r = REAL(pthread_rwlock_unlock)(m); if (On()) Wake(m, 1 << 30); return r; }
static int CondWait(pthread_cond_t* c, pthread_mutex_t* m, uint64_t dl) {
  HbRel(m);
  REAL(pthread_mutex_unlock)(m);
  Wake(m, 1 << 30);
  bool woken = Block(c, dl, "cond");
  while (REAL(pthread_mutex_trylock)(m) == EBUSY) Block(m, 0, "mutex");
  HbAcq(m);
  return woken ? 0 : ETIMEDOUT;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!On()) return REAL(pthread_cond_wait)(c, m);
  return CondWait(c, m, 0);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
  if (!On()) return REAL(pthread_cond_timedwait)(c, m, ts);
  return CondWait(c, m, FromAbs(CLOCK_REALTIME, ts));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) {
  if (!On()) return REAL(pthread_cond_clockwait)(c, m, k, ts);
  return CondWait(c, m, FromAbs(k, ts));
}
int pthread_cond_signal(pthread_cond_t* c) { if (!On()) return REAL(pthread_cond_signal)(c); Wake(c, 1); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { if (!On()) return REAL(pthread_cond_broadcast)(c); Wake(c, 1 << 30); return 0; }
int pthread_cond_destroy(pthread_cond_t* c) { if (!g_on) return REAL(pthread_cond_destroy)(c); return 0; }
int pthread_once(pthread_once_t* o, void (*f)(void)) {
  if (!On()) return REAL(pthread_once)(o, f);
  while (g_once->count(o)) Block(o, 0, "once");
  HbAcq(o);
  g_once->insert(o);
  struct D { pthread_once_t* o; ~D() { HbRel(o); g_once->erase(o); Wake(o, 1 << 30); } } d{o};
  return REAL(pthread_once)(o, f);
}
int sem_wait(sem_t* s) {
  if (!On()) return REAL(sem_wait)(s);
  Point(kLock);
  while (sem_trywait(s) != 0) { if (errno != EAGAIN) return -1; Block(s, 0, "sem"); }
  HbAcq(s);
  return 0;
}
int sem_post(sem_t* s) { if (On()) HbRel(s); int r = REAL(sem_post)(s); if (On()) Wake(s, 1); return r; }
int sched_yield(void) { if (!On()) return REAL(sched_yield)(); g_same = 4000; Point(kUser); return 0; }
static void VSleep(uint64_t ns) { Block(&g_now + 1, g_now + (ns ? ns : 1), "sleep"); }
int nanosleep(const struct timespec* r, struct timespec* m) { if (!On()) return REAL(nanosleep)(r, m); VSleep(ToNs(r)); return 0; }
int clock_nanosleep(clockid_t c, int fl, const struct timespec* r, struct timespec* m) {
  if (!On()) return REAL(clock_nanosleep)(c, fl, r, m);
  if (fl & TIMER_ABSTIME) { uint64_t d = FromAbs(c, r); VSleep(d > g_now ? d - g_now : 1); } else VSleep(ToNs(r));
  return 0;
}
int usleep(useconds_t u) { if (!On()) return REAL(usleep)(u); VSleep(u * 1000ull); return 0; }
unsigned sleep(unsigned s) { if (!On()) return REAL(sleep)(s); VSleep(s * 1000000000ull); return 0; }
int clock_gettime(clockid_t c, struct timespec* ts) {
  if (!g_on || !self) return REAL(clock_gettime)(c, ts);
  uint64_t v = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? kRealBase : kMonoBase) + g_now;
  g_now += 1000;
  ts->tv_sec = v / 1000000000ull; ts->tv_nsec = v % 1000000000ull;
  return 0;
}
long syscall(long n, ...) {
  va_list ap; va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  static auto real = Real<long (*)(long, ...)>("syscall");
  if (n == SYS_futex && On()) {
    int op = b & FUTEX_CMD_MASK;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      if (*reinterpret_cast<volatile int*>(a) != (int)c) { errno = EAGAIN; return -1; }
      uint64_t dl = 0;
      if (auto* ts = reinterpret_cast<const timespec*>(d)) {
        dl = op == FUTEX_WAIT ? g_now + ToNs(ts) : FromAbs((b & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC, ts);
      }
      if (!Block(reinterpret_cast<void*>(a), dl, "futex")) { errno = ETIMEDOUT; return -1; }
      HbAcq(reinterpret_cast<void*>(a));
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) HbRel(reinterpret_cast<void*>(a));
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) return Wake(reinterpret_cast<void*>(a), (int)c < 0 ? 1 << 30 : (int)c);
  }
  return real(n, a, b, c, d, e, f);
}
// ---- randomness
int RAND_bytes(unsigned char* b, int n) { shim::RngBytes(b, n); if (mc::g_on_rand) mc::g_on_rand(mc::Party(), b, n); return 1; }
int RAND_priv_bytes(unsigned char* b, int n) { shim::RngBytes(b, n); return 1; }
ssize_t getrandom(void* b, size_t n, unsigned) { shim::RngBytes(b, n); return n; }
int getentropy(void* b, size_t n) { shim::RngBytes(b, n); return 0; }
unsigned mc_random_device(void*) asm("_ZNSt13random_device9_M_getvalEv");
unsigned mc_random_device(void*) { return (unsigned)shim::RngNext(); }
unsigned mc_hwc() asm("_ZNSt6thread20hardware_concurrencyEv");
unsigned mc_hwc() { return 3; }
int omp_get_num_procs(void) { return 3; }

// ---- heap: memory that is never given back cannot look shared because it was reused
}
static void* New(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
static void Delete(void* p) { if (mc::g_opts.shared_mem) return; free(p); }
void* operator new(size_t n) { return New(n); }
void* operator new[](size_t n) { return New(n); }
void operator delete(void* p) noexcept { Delete(p); }
void operator delete[](void* p) noexcept { Delete(p); }
void operator delete(void* p, size_t) noexcept { Delete(p); }
void operator delete[](void* p, size_t) noexcept { Delete(p); }
extern "C" {
// ---- file system
static int OpenPost(const char* path, int flags, int fd, bool crash_after) {
  if (fd >= 0 && fs.armed && Under(path)) fs.fds[fd] = path;
  if (crash_after) DoCrash();
  (void)flags;
  return fd;
}
static bool OpenPre(const char* path, int flags) {
  if (!FsMine() || !Under(path)) return false;
  if (!(flags & (O_CREAT | O_TRUNC))) return false;
  struct stat sb;
  if (!(flags & O_TRUNC) && stat(path, &sb) == 0) return false;  // nothing changes
  return FsStep("open", path, nullptr);
}
int open(const char* p, int fl, ...) {
  va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap);
  static auto real = Real<int (*)(const char*, int, ...)>("open");
  bool c = OpenPre(p, fl); if (FsErr()) return -1; return OpenPost(p, fl, real(p, fl, mode), c);
}
int open64(const char* p, int fl, ...) {
  va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap);
  static auto real = Real<int (*)(const char*, int, ...)>("open64");
  bool c = OpenPre(p, fl); if (FsErr()) return -1; return OpenPost(p, fl, real(p, fl, mode), c);
}
static int ModeFlags(const char* m) { return m[0] == 'w' ? O_CREAT | O_TRUNC : m[0] == 'a' ? O_CREAT : 0; }
FILE* fopen(const char* p, const char* m) {
  bool c = OpenPre(p, ModeFlags(m)); if (FsErr()) return nullptr; FILE* f = REAL(fopen)(p, m);
  OpenPost(p, 0, f ? fileno(f) : -1, c); return f;
}
FILE* fopen64(const char* p, const char* m) {
  static auto real = Real<FILE* (*)(const char*, const char*)>("fopen64");
  bool c = OpenPre(p, ModeFlags(m)); if (FsErr()) return nullptr; FILE* f = real(p, m);
  OpenPost(p, 0, f ? fileno(f) : -1, c); return f;
}
ssize_t write(int fd, const void* b, size_t n) {
  auto real = REAL(write);
  if (FsMine() && n > 0) {
    auto it = fs.fds.find(fd);
    if (it != fs.fds.end()) {
      size_t k = n;
      if (FsStep("write", it->second, &k)) { if (k) real(fd, b, k); DoCrash(); }
      if (FsErr()) return -1;
    }
  }
  return real(fd, b, n);
}
ssize_t writev(int fd, const struct iovec* v, int c) {
  auto real = REAL(writev);
  if (FsMine()) {
    auto it = fs.fds.find(fd);
    if (it != fs.fds.end()) {
      std::string s; for (int i = 0; i < c; ++i) s.append((const char*)v[i].iov_base, v[i].iov_len);
      size_t k = s.size();
      if (k && FsStep("write", it->second, &k)) { if (k) REAL(write)(fd, s.data(), k); DoCrash(); }
      if (FsErr()) return -1;
    }
  }
  return real(fd, v, c);
}
int close(int fd) { if (fs.armed) fs.fds.erase(fd); return REAL(close)(fd); }
int fclose(FILE* f) { if (fs.armed && f) fs.fds.erase(fileno(f)); return REAL(fclose)(f); }
#define PATHOP(name, opname) \
  if (FsMine() && Under(p)) { \
    struct stat sb; \
    if (lstat(p, &sb) == 0 && FsStep(opname, p, nullptr)) { REAL(name)(p); DoCrash(); } \
  }
int unlink(const char* p) { PATHOP(unlink, "unlink") return REAL(unlink)(p); }
int remove(const char* p) { PATHOP(remove, "unlink") return REAL(remove)(p); }
int rmdir(const char* p) { PATHOP(rmdir, "rmdir") return REAL(rmdir)(p); }
int unlinkat(int d, const char* p, int fl) {
  if (FsMine()) { // recursive removal: relative to a directory handle
    char lp[4096]; std::string l = fmt::format("/proc/self/fd/{}", d); ssize_t k = d == AT_FDCWD ? -1 : readlink(l.c_str(), lp, sizeof lp - 1);
    std::string full = k > 0 ? std::string(lp, k) + "/" + p : p;
    if (Under(full.c_str()) && FsStep("unlink", full, nullptr)) { REAL(unlinkat)(d, p, fl); DoCrash(); }
  }
  return REAL(unlinkat)(d, p, fl);
}
int mkdir(const char* p, mode_t m) {
  if (FsMine() && Under(p)) { struct stat sb; if (stat(p, &sb) != 0 && FsStep("mkdir", p, nullptr)) { REAL(mkdir)(p, m); DoCrash(); } if (FsErr()) return -1; }
  return REAL(mkdir)(p, m);
}
int rename(const char* a, const char* p) {
  if (FsMine() && Under(p)) { if (FsStep("rename", p, nullptr)) { REAL(rename)(a, p); DoCrash(); } if (FsErr()) return -1; }
  return REAL(rename)(a, p);
}
int truncate(const char* p, off_t n) {
  if (FsMine() && Under(p)) { if (FsStep("truncate", p, nullptr)) { REAL(truncate)(p, n); DoCrash(); } if (FsErr()) return -1; }
  return REAL(truncate)(p, n);
}
}
