// Controlled execution of real code: one thread runs at a time, every
// scheduling / environment choice is recorded and can be replayed, clocks and
// randomness are virtual, file-system mutations are numbered so that a crash
// can be injected at each of them.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include "fmt/format.h"
#include "fmt/ranges.h"

extern "C" {
void mc_point(int kind, const void* obj);
void mc_atomic_begin();
void mc_atomic_end();
}
namespace mc {
enum Kind { kSend = 1, kRecv = 2, kLock = 3, kCreate = 4, kMem = 5, kUser = 6, kEnv = 7, kWake = 8 };

struct Opts {
  int delays = 0;              // deviations from the default schedule / default environment answers
  uint32_t points = (1u << kSend) | (1u << kRecv) | (1u << kLock) | (1u << kCreate) | (1u << kUser) | (1u << kWake);
  bool early_timeouts = false;  // a timed wait may fire although other threads can run
  bool sched = true;            // run the body under the controlled scheduler
  uint64_t seed = 1;            // randomness
  uint64_t max_points = 400000;
  int cpu_s = 60;               // per execution
  uint64_t max_execs = 0;       // 0 = no cap (a cap that is hit is reported)
  int policy = 0;              // who runs when a thread blocks: 0 the next one in turn, 1 the oldest, 2 the newest
  bool shared_mem = false;      // kMem points only for memory that two threads touch in the default execution
  bool split = false;           // shard this case's schedule tree over all workers
};

// ---- inside an execution -------------------------------------------------
[[noreturn]] void Fail(const std::string& key, const std::string& msg);   // property broken
void Check(bool ok, const std::string& key, const std::function<std::string()>& msg);
void Out(const std::string& s);          // observable outcome, for the distinct-outcome count
void Count(uint64_t n);                  // evaluations beyond the execution itself
void States(uint64_t n);                 // explored states of an in-process search
void Sample(const std::string& s);
void Nontrivial(uint64_t h);             // hash of a distinct non-trivial case
int Choose(int n, int kind = kEnv);      // environment choice; 0 = default answer
void SetParty(int p);                    // inherited by created threads
int Party();
extern std::function<void(int party, const unsigned char*, int)> g_on_rand;   // after each RAND_bytes
void Yield();
uint64_t NowNs();
bool Active();
// runs f as a joinable controlled thread belonging to party p
std::thread Spawn(int party, std::function<void()> f);
// run parties[i] concurrently (party id i); returns what() of the exception each ended with ("" = none)
std::vector<std::string> RunParties(const std::vector<std::function<void()>>& parties);
std::string ScratchDir();                // private to the execution, removed afterwards

// ---- crash injection -----------------------------------------------------
struct FsOp { std::string op, path; uint64_t n; };
// Number file-system mutations below `dir` made by `party` (-1: any). crash_at<0: only record.
// torn: for a write of n bytes, how much gets out before the crash: 0 none, 1 half, 2 all.
// torn 3 / 4: no crash, but this operation / this and every later one fails with ENOSPC (removals excepted).
void FsArm(const std::string& dir, int party, long crash_at, int torn, std::function<void()> on_crash = nullptr);
void FsDisarm();
const std::vector<FsOp>& FsLog();
bool Crashed();
// Run f in a forked child of this execution; true if it ended by itself with status 0
struct SubResult { bool crashed = false; bool ok = false; int status = 0; std::string out; std::vector<FsOp> log; };
SubResult Sub(const std::function<std::string()>& f, int cpu_s = 60);

// ---- exploration ---------------------------------------------------------
class Suite {
 public:
  Suite(int argc, char** argv, std::string name);
  bool Quick() const { return quick_; }
  int Tier(int quick, int thorough) const { return quick_ ? quick : thorough; }
  void Add(std::string id, Opts o, std::function<void()> body);
  int Run();   // process exit code: 0 explored (violations are in the report), 2 internal error
 private:
  struct Case { std::string id; Opts o; std::function<void()> body; };
  struct Impl;
  void Worker(int w, int n, int fd);
  std::string name_; bool quick_ = true; std::string report_, replay_case_, replay_sched_, only_;
  int workers_ = 8; double budget_s_ = 0;
  std::vector<Case> cases_;
};
}  // namespace mc
