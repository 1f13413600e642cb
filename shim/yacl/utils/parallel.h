// Stand-in for yacl/utils/parallel.h.  Splits the range into chunks and runs
// them one after another, or, in the concurrent mode, on threads of their own
// (which the controlled scheduler then interleaves).
#pragma once
#include "yacl/base/buffer.h"
#include <cstdint>
#include <exception>
#include <functional>
#include <thread>
#include <vector>
#include "yacl/base/exception.h"
namespace yacl {
inline int get_num_threads() { return 2; }
inline void set_num_threads(int) {}
inline int init_num_threads() { return 2; }
inline int in_parallel_region() { return 0; }
namespace shim_par {
inline int64_t& Chunks() { static int64_t c = 3; return c; }   // chunks per call
inline bool& Reverse() { static bool r = false; return r; }   // chunk order
inline bool& Concurrent() { static bool r = false; return r; }   // one thread per chunk
}
template <typename F>
inline void parallel_for(int64_t begin, int64_t end, int64_t grain, const F& f) {
  if (begin >= end) return;
  int64_t n = end - begin, c = shim_par::Chunks();
  if (grain < 1) grain = 1;
  int64_t sz = (n + c - 1) / c;
  if (sz < grain) sz = grain;
  int64_t k = (n + sz - 1) / sz;
  if (shim_par::Concurrent() && k > 1) {
    std::vector<std::exception_ptr> err(k); std::vector<std::thread> th;
    auto run = [&](int64_t i) { int64_t b = begin + i * sz; try { f(b, std::min(end, b + sz)); } catch (...) { err[i] = std::current_exception(); } };
    for (int64_t i = 1; i < k; ++i) th.emplace_back(run, i);
    run(0);
    for (auto& t : th) t.join();
    for (auto& e : err) if (e) std::rethrow_exception(e);
    return;
  }
  for (int64_t j = 0; j < k; ++j) {
    int64_t i = shim_par::Reverse() ? k - 1 - j : j;
    int64_t b = begin + i * sz, e = std::min(end, b + sz);
    f(b, e);
  }
}
template <typename F>
inline void parallel_for(int64_t begin, int64_t end, const F& f) { parallel_for(begin, end, 1, f); }
template <typename S, typename F, typename R>
inline S parallel_reduce(int64_t begin, int64_t end, int64_t grain, const F& f, const R& r) { (void)grain; (void)r; return f(begin, end); }
}  // namespace yacl
