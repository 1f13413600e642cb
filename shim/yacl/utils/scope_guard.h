#pragma once
#include <utility>
namespace yacl {
template <typename F> class ScopeGuardImpl { public: explicit ScopeGuardImpl(F f) : f_(std::move(f)) {} ~ScopeGuardImpl() { f_(); } private: F f_; };
struct ScopeGuardOnExit {};
template <typename F> ScopeGuardImpl<F> operator+(ScopeGuardOnExit, F&& f) { return ScopeGuardImpl<F>(std::forward<F>(f)); }
template <typename F> auto MakeScopeGuard(F&& f) { return ScopeGuardImpl<std::decay_t<F>>(std::forward<F>(f)); }
}  // namespace yacl
#define YACL_SHIM_CAT2(a, b) a##b
#define YACL_SHIM_CAT(a, b) YACL_SHIM_CAT2(a, b)
#define ON_SCOPE_EXIT(...) auto YACL_SHIM_CAT(shim_scope_exit_, __COUNTER__) = ::yacl::MakeScopeGuard(__VA_ARGS__)
