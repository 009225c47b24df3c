// Specification interface.  A harness is compiled twice: with VC_SYM (calls to
// the __vc_* intrinsics are interpreted by the VC generator) and natively
// (inputs come from a tape or a seeded generator, assertions are executed).
#ifndef VC_H_
#define VC_H_
#include <algorithm>
#include <cmath>
#include <limits>
#include <cstdint>
#include <cstring>
#include <optional>
#include <type_traits>
#include <utility>
#include <vector>
#include <deque>

#ifdef VC_SYM
extern "C" {
std::uint8_t __vc_nondet_u8();
std::uint32_t __vc_nondet_u32();
std::uint64_t __vc_nondet_u64();
float __vc_nondet_f32();
double __vc_nondet_f64();
bool __vc_nondet_bool();
void __vc_assume(bool);
void __vc_assert(bool, const char* prop, const char* label);
void __vc_cover(const char*);
bool __vc_same_f32(float, float);
bool __vc_same_f64(double, double);
bool __vc_and(bool, bool);
bool __vc_or(bool, bool);
bool __vc_implies(bool, bool);
void __vc_loop_spec(const void* fn, const void* ctx, const char* pat);
void __vc_loop_spec_clear();
void __vc_inv(bool, const char*);
void __vc_def(bool);
void __vc_ghost(const char* name, std::uint64_t k, void* out, const void* sig, std::uint64_t id);
std::uint64_t __vc_newid();
std::uint64_t __vc_last_k();
void __vc_exact(bool);
void __vc_pure(const void* fn);
void __vc_replace(const char* name, const void* fn);
std::uint64_t __vc_snapshot(const void* p);
void __vc_assert_unchanged(std::uint64_t snap, const char* prop, const char* label);
void __vc_except(const void* p, std::uint64_t n);
void __vc_except_clear();
void __vc_seq_havoc(void* s, const void* sig);
}
#else
#include "vc_native.h"
#endif

namespace vc {
inline bool And(bool a, bool b) {
#ifdef VC_SYM
  return __vc_and(a, b);
#else
  return a && b;
#endif
}
template <class... B> inline bool And(bool a, bool b, B... r) { return And(And(a, b), r...); }
inline bool Or(bool a, bool b) {
#ifdef VC_SYM
  return __vc_or(a, b);
#else
  return a || b;
#endif
}
template <class... B> inline bool Or(bool a, bool b, B... r) { return Or(Or(a, b), r...); }
inline bool Implies(bool a, bool b) {
#ifdef VC_SYM
  return __vc_implies(a, b);
#else
  return !a || b;
#endif
}

// Equality of specifications: bit-identical, or both NaN.  Natively a small
// tolerance is allowed, so that replay only confirms real differences.
#ifdef VC_SYM
inline bool Same(float a, float b) { return __vc_same_f32(a, b); }
inline bool Same(double a, double b) { return __vc_same_f64(a, b); }
#else
template <class F> inline bool SameF(F a, F b, F tol) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (a == b) return true;
  if (std::isinf(a) || std::isinf(b)) return false;
  F m = std::max(std::fabs(a), std::fabs(b));
  return std::fabs(a - b) <= tol * std::max<F>(m, vc_native::scale);
}
inline bool Same(float a, float b) { return SameF<float>(a, b, 2e-4f); }
inline bool Same(double a, double b) { return SameF<double>(a, b, 1e-7); }
#endif
inline bool Same(int a, int b) { return a == b; }
inline bool Same(bool a, bool b) { return a == b; }
inline bool Same(std::uint64_t a, std::uint64_t b) { return a == b; }

#ifdef VC_SYM
inline void Any(float& x) { x = __vc_nondet_f32(); }
inline void Any(double& x) { x = __vc_nondet_f64(); }
inline void Any(int& x) { x = static_cast<int>(__vc_nondet_u32()); }
inline void Any(std::uint32_t& x) { x = __vc_nondet_u32(); }
inline void Any(std::uint64_t& x) { x = __vc_nondet_u64(); }
inline void Any(bool& x) { x = __vc_nondet_bool(); }
template <class S> inline void AnySeq(S& s) { __vc_seq_havoc(&s.s_, S::sig()); }
inline void Assume(bool c) { __vc_assume(c); }
// Callers see the (scalar, effect-free) function by its summary only.
template <class F> inline void Opaque(F* f) { __vc_pure(reinterpret_cast<const void*>(f)); }
#define VC_ASSERT(prop, label, cond) __vc_assert((cond), prop, label)
#define VC_COVER(label) __vc_cover(label)
// Calls of the named function see the contract function f instead of its body.
template <class F> inline void Contract(const char* name, F* f) { __vc_replace(name, reinterpret_cast<const void*>(f)); }
#else
inline void Any(float& x) { x = vc_native::tape().f32(); }
inline void Any(double& x) { x = vc_native::tape().f64(); }
inline void Any(int& x) { x = static_cast<int>(vc_native::tape().i32()); }
inline void Any(std::uint32_t& x) { x = vc_native::tape().i32(); }
inline void Any(std::uint64_t& x) { x = vc_native::tape().i64(); }
inline void Any(bool& x) { x = vc_native::tape().b(); }
template <class S> inline void AnySeq(S& s) {
  s.clear();
  std::uint64_t n = vc_native::tape().len();
  for (std::uint64_t i = 0; i < n; ++i) { typename S::value_type e{}; Any(e); s.push_back(e); }
}
template <class F> inline void Opaque(F*) {}
inline void Assume(bool c) { if (!c) throw vc_native::Discard(); }
#define VC_ASSERT(prop, label, cond) vc_native::check((cond), prop, label)
#define VC_COVER(label) vc_native::cover(label)
#endif
template <class T> inline T Arb() { T t{}; Any(t); return t; }

// Sequences are equal: same length and, at an arbitrary index, the same element.
template <class S> inline bool SameSeq(const S& a, const S& b) {
#ifdef VC_SYM
  bool ok = a.size() == b.size();
  std::uint64_t j = __vc_nondet_u64();
  if (j < a.size()) { if (j < b.size()) ok = And(ok, Same(a[j], b[j])); }
  return ok;
#else
  if (a.size() != b.size()) return false;
  for (std::size_t i = 0; i < a.size(); ++i) if (!Same(a[i], b[i])) return false;
  return true;
#endif
}
template <class T> inline bool Same(const std::optional<T>& a, const std::optional<T>& b) {
  if (a.has_value() != b.has_value()) return false;
  return !a.has_value() || Same(*a, *b);
}

// Loop specifications.  `Loop<C>(ctx, fn)` registers fn(ctx, k) to be tried on
// every loop that has to be cut; natively it does nothing.
inline void Inv(const char* label, bool c) {
#ifdef VC_SYM
  __vc_inv(c, label);
#else
  (void)label; (void)c;
#endif
}
#ifdef VC_SYM
template <class C> inline void LoopSpec(C& ctx, void (*fn)(C&, std::uint64_t)) {
  __vc_loop_spec(reinterpret_cast<const void*>(fn), &ctx, "");
}
template <class C, class... A> inline void LoopSpecCells(C& ctx, const char* pat, void (*fn)(C&, std::uint64_t, A...)) {
  __vc_loop_spec(reinterpret_cast<const void*>(fn), &ctx, pat);
}
inline void LoopSpecClear() { __vc_loop_spec_clear(); }
#else
template <class C> inline void LoopSpec(C&, void (*)(C&, std::uint64_t)) {}
template <class C, class... A> inline void LoopSpecCells(C&, const char*, void (*)(C&, std::uint64_t, A...)) {}
inline void LoopSpecClear() {}
#endif

// Ghost sequence defined by recursion: at(0)=init, at(k+1)=step(at(k),k).
// Symbolically at(k) is an uninterpreted function of k and Unfold(k) states
// the defining equation at k; natively the recursion is computed.
template <class T> struct Ghost {
  T init;
#ifdef VC_SYM
  const char* name;
  std::uint64_t id;
  Ghost(const char* n, const T& i) : init(i), name(n), id(__vc_newid()) {
    T z = at(0);
    __vc_exact(true);
    bool e = Same(z, init);
    __vc_exact(false);
    __vc_assume(e);
  }
  T at(std::uint64_t k) const {
    T r{};
    __vc_ghost(name, k, &r, reinterpret_cast<const void*>(&vc_wit<T>), id);
    return r;
  }
  // the defining equation at index k1
  void Def(std::uint64_t k1, const T& v) const { T a = at(k1); __vc_def(Same(a, v)); }
#else
  std::vector<T> v;
  Ghost(const char*, const T& i) : init(i) { v.push_back(i); }
  const T& at(std::uint64_t k) const { return v.at(k); }
  template <class F> void Extend(std::uint64_t k, F step) { while (v.size() <= k) v.push_back(step(v.back(), v.size() - 1)); }
#endif
};
#ifdef VC_SYM
// Uninterpreted function of an index, defined pointwise where needed.
template <class T> struct Fun {
  const char* name;
  std::uint64_t id;
  explicit Fun(const char* n) : name(n), id(__vc_newid()) {}
  T at(std::uint64_t k) const {
    T r{};
    __vc_ghost(name, k, &r, reinterpret_cast<const void*>(&vc_wit<T>), id);
    return r;
  }
  void Def(std::uint64_t k, const T& v) const { T a = at(k); __vc_def(Same(a, v)); }
};
#else
template <class T> struct Fun { explicit Fun(const char*) {} };
#endif
}  // namespace vc
#endif
