// A serial stand-in for the MATAR / Kokkos array library, written for the
// checks in this directory: the real library is a submodule that is not part
// of the tree.  It provides the same observable semantics as MATAR on a serial
// Kokkos back end: arrays are reference counted (copying one copies a handle),
// device and host share their memory, device arrays start out zeroed, parallel
// loops run their body once per index and a "return" in it ends that index.
// Every access is bounds checked; an access out of range ends the run.
#ifndef VERIF_SHIM_MATAR_H
#define VERIF_SHIM_MATAR_H
#define HAVE_KOKKOS 1

#include <algorithm>
#include <array>
#include <cassert>
#include <chrono>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

#define KOKKOS_FUNCTION
#define KOKKOS_INLINE_FUNCTION inline
#define KOKKOS_LAMBDA [=]
#define KOKKOS_CLASS_LAMBDA [=, *this]

typedef double real_t;
typedef size_t u_int_t;

namespace shim {
// 86: memory error caught by the stand-in, 87: the code called Kokkos::abort
[[noreturn]] inline void stop(int code)
{
    std::fflush(stdout);
    std::cout.flush();
    std::fflush(stderr);
    _exit(code);
}
[[noreturn]] inline void out_of_range(const char* what, size_t i, size_t n, const char* name)
{
    std::fflush(stdout);
    std::cout.flush();
    std::fprintf(stderr, "SHIM: index out of range in %s '%s': %zu of %zu\n", what, name, i, n);
    shim::stop(86);
}
struct Scope { static int& level() { static int l = 0; return l; } };
}  // namespace shim

namespace Kokkos {
inline void fence() {}
inline void fence(const std::string&) {}
inline void initialize() {}
inline void initialize(int&, char**) {}
inline void finalize() {}
[[noreturn]] inline void abort(const char* m) { std::fflush(stdout); std::cout.flush(); std::fprintf(stderr, "Kokkos::abort: %s\n", m); shim::stop(87); }
template <class T, class U> inline void atomic_add(T* p, U v) { *p += v; }
template <class T> inline bool isfinite(T v) { return std::isfinite(v); }
template <class T> inline T max(T a, T b) { return a < b ? b : a; }
template <class T> inline T min(T a, T b) { return b < a ? b : a; }
struct AUTO_t {};
static const AUTO_t AUTO{};
struct TeamMember { int rank; int league_rank() const { return rank; } int team_rank() const { return 0; } };
template <class... P> struct TeamPolicy {
    using member_type = TeamMember;
    size_t n;
    TeamPolicy(size_t n_, AUTO_t) : n(n_) {}
};
struct TeamThreadRangeT { size_t n; };
inline TeamThreadRangeT TeamThreadRange(const TeamMember&, size_t n) { return {n}; }
template <class F, class... P> void parallel_for(const std::string&, const TeamPolicy<P...>& p, F f)
{ for (size_t i = 0; i < p.n; i++) { TeamMember m{(int)i}; f(m); } }
template <class F, class T> void parallel_reduce(const TeamThreadRangeT& r, F f, T& result)
{ T s{}; for (size_t i = 0; i < r.n; i++) { f((int)i, s); } result = s; }
}  // namespace Kokkos

namespace mtr {

// dense storage of up to seven dimensions, row major (C) or column major (F),
// with first index Base
template <class T, bool RowMajor, int Base>
class Dense
{
  public:
    size_t dims_[7] = {1, 1, 1, 1, 1, 1, 1};
    size_t order_ = 0;
    size_t len_ = 0;
    std::shared_ptr<T[]> own_;
    T* ptr_ = nullptr;
    std::string name_;

    Dense() = default;

    void alloc(std::initializer_list<size_t> d, const std::string& name)
    {
        shape(d, name);
        own_ = std::shared_ptr<T[]>(new T[len_ ? len_ : 1]());
        ptr_ = own_.get();
    }
    void view(T* p, std::initializer_list<size_t> d)
    {
        shape(d, "view");
        ptr_ = p;
    }
    template <class... I> T& at(I... idx) const
    {
        const size_t ix[] = {static_cast<size_t>(idx)...};
        const size_t n = sizeof...(I);
        if (n != order_) shim::out_of_range("order of", n, order_, name_.c_str());
        size_t k = 0;
        if (RowMajor) {
            for (size_t d = 0; d < n; d++) {
                const size_t x = ix[d] - Base;
                if (x >= dims_[d]) shim::out_of_range("array", ix[d], dims_[d], name_.c_str());
                k = k * dims_[d] + x;
            }
        } else {
            for (size_t d = n; d-- > 0;) {
                const size_t x = ix[d] - Base;
                if (x >= dims_[d]) shim::out_of_range("array", ix[d], dims_[d], name_.c_str());
                k = k * dims_[d] + x;
            }
        }
        return ptr_[k];
    }
    size_t dims(size_t i) const { return dims_[i]; }
    size_t size() const { return len_; }
    size_t extent() const { return len_; }
    size_t order() const { return order_; }
    T* pointer() const { return ptr_; }
    const std::string get_name() const { return name_; }
    void set_values(T v) const { for (size_t i = 0; i < len_; i++) ptr_[i] = v; }

  private:
    void shape(std::initializer_list<size_t> d, const std::string& name)
    {
        order_ = d.size();
        size_t i = 0;
        len_ = 1;
        for (size_t x : d) { dims_[i++] = x; len_ *= x; }
        name_ = name;
    }
};

#define SHIM_NAME const std::string& nm = "unnamed"
#define SHIM_CTORS(CLASS)                                                                                             \
    CLASS() = default;                                                                                                \
    CLASS(size_t a, SHIM_NAME) { this->alloc({a}, nm); this->bind(); }                                       \
    CLASS(size_t a, size_t b, SHIM_NAME) { this->alloc({a, b}, nm); this->bind(); }                                   \
    CLASS(size_t a, size_t b, size_t c, SHIM_NAME) { this->alloc({a, b, c}, nm); this->bind(); }                      \
    CLASS(size_t a, size_t b, size_t c, size_t d, SHIM_NAME) { this->alloc({a, b, c, d}, nm); this->bind(); }         \
    CLASS(size_t a, size_t b, size_t c, size_t d, size_t e, SHIM_NAME) { this->alloc({a, b, c, d, e}, nm); this->bind(); }

#define SHIM_VCTORS(CLASS)                                                                          \
    CLASS() = default;                                                                              \
    CLASS(T* p, size_t a) { this->view(p, {a}); this->bind(); }                                     \
    CLASS(T* p, size_t a, size_t b) { this->view(p, {a, b}); this->bind(); }                        \
    CLASS(T* p, size_t a, size_t b, size_t c) { this->view(p, {a, b, c}); this->bind(); }           \
    CLASS(T* p, size_t a, size_t b, size_t c, size_t d) { this->view(p, {a, b, c, d}); this->bind(); }

// arrays of one side (host or device)
template <class T, bool RM, int B> class Single : public Dense<T, RM, B>
{
  public:
    void bind() {}
    template <class... I> T& operator()(I... i) const { return this->at(i...); }
};

// arrays with a host and a device side
template <class T, bool RM, int B> class Dual : public Dense<T, RM, B>
{
  public:
    Single<T, RM, B> host;
    void bind() { static_cast<Dense<T, RM, B>&>(host) = *this; }
    template <class... I> T& operator()(I... i) const { return this->at(i...); }
    T* host_pointer() const { return this->ptr_; }
    T* device_pointer() const { return this->ptr_; }
    void update_host() const {}
    void update_device() const {}
    void lock_update() const {}
    void unlock_update() const {}
};

#define SHIM_OWNING(CLASS, BASE, RM, B)          \
    template <class T> class CLASS : public BASE<T, RM, B> { public: SHIM_CTORS(CLASS) };
#define SHIM_VIEW(CLASS, BASE, RM, B)            \
    template <class T> class CLASS : public BASE<T, RM, B> { public: SHIM_VCTORS(CLASS) };

SHIM_OWNING(CArray, Single, true, 0)
SHIM_OWNING(FArray, Single, false, 0)
SHIM_OWNING(CMatrix, Single, true, 1)
SHIM_OWNING(FMatrix, Single, false, 1)
SHIM_OWNING(CArrayKokkos, Single, true, 0)
SHIM_OWNING(FArrayKokkos, Single, false, 0)
SHIM_OWNING(CMatrixKokkos, Single, true, 1)
SHIM_OWNING(FMatrixKokkos, Single, false, 1)
SHIM_OWNING(DCArrayKokkos, Dual, true, 0)
SHIM_OWNING(DFArrayKokkos, Dual, false, 0)
SHIM_OWNING(DCMatrixKokkos, Dual, true, 1)
SHIM_OWNING(DFMatrixKokkos, Dual, false, 1)
SHIM_VIEW(ViewCArray, Single, true, 0)
SHIM_VIEW(ViewFArray, Single, false, 0)
SHIM_VIEW(ViewCMatrix, Single, true, 1)
SHIM_VIEW(ViewCArrayKokkos, Single, true, 0)
SHIM_VIEW(ViewFArrayKokkos, Single, false, 0)
SHIM_VIEW(ViewCMatrixKokkos, Single, true, 1)
SHIM_VIEW(DViewCArrayKokkos, Dual, true, 0)

// ragged arrays: row i has stride(i) entries, each of d1 x d2 values
struct ShimStride
{
    std::shared_ptr<std::vector<size_t>> s = std::make_shared<std::vector<size_t>>();
    size_t& operator()(size_t i) const
    {
        if (i >= s->size()) shim::out_of_range("strides", i, s->size(), "stride");
        return (*s)[i];
    }
    size_t& host(size_t i) const { return (*this)(i); }
    void update_host() const {}
    void update_device() const {}
};

template <class T> class RaggedBase
{
  public:
    ShimStride stride;
    std::shared_ptr<std::vector<size_t>> start_ = std::make_shared<std::vector<size_t>>();
    size_t d1_ = 1, d2_ = 1, rank_ = 0, len_ = 0;
    std::shared_ptr<T[]> own_;
    std::string name_;

    void build(const std::vector<size_t>& strides, size_t d1, size_t d2, size_t rank, const std::string& nm)
    {
        stride.s = std::make_shared<std::vector<size_t>>(strides);
        start_ = std::make_shared<std::vector<size_t>>();
        d1_ = d1; d2_ = d2; rank_ = rank; name_ = nm;
        size_t at = 0;
        for (size_t s : strides) { start_->push_back(at); at += s; }
        len_ = at * d1 * d2;
        own_ = std::shared_ptr<T[]>(new T[len_ ? len_ : 1]());
    }
    size_t row(size_t i, size_t j) const
    {
        if (i >= start_->size()) shim::out_of_range("rows of", i, start_->size(), name_.c_str());
        if (j >= (*stride.s)[i]) shim::out_of_range("ragged row", j, (*stride.s)[i], name_.c_str());
        return ((*start_)[i] + j) * d1_ * d2_;
    }
    T& at(size_t i, size_t j) const
    {
        if (rank_ != 2) shim::out_of_range("order of", 2, rank_, name_.c_str());
        return own_[row(i, j)];
    }
    T& at(size_t i, size_t j, size_t k) const
    {
        if (rank_ != 3) shim::out_of_range("order of", 3, rank_, name_.c_str());
        if (k >= d1_) shim::out_of_range("ragged", k, d1_, name_.c_str());
        return own_[row(i, j) + k];
    }
    T& at(size_t i, size_t j, size_t k, size_t l) const
    {
        if (rank_ != 4) shim::out_of_range("order of", 4, rank_, name_.c_str());
        if (k >= d1_ || l >= d2_) shim::out_of_range("ragged", k, d1_, name_.c_str());
        return own_[row(i, j) + k * d2_ + l];
    }
    template <class... I> T& operator()(I... i) const { return at(static_cast<size_t>(i)...); }
    size_t size() const { return len_; }
    size_t dims(size_t i) const { return i == 0 ? start_->size() : i == 2 ? d1_ : d2_; }
    T* pointer() const { return own_.get(); }
    void set_values(T v) const { for (size_t i = 0; i < len_; i++) own_[i] = v; }
    const std::string get_name() const { return name_; }
};

template <class A> inline std::vector<size_t> shim_strides(const A& a)
{
    std::vector<size_t> s;
    for (size_t i = 0; i < a.size(); i++) s.push_back(a(i));
    return s;
}

template <class T> class RaggedRightArrayKokkos : public RaggedBase<T>
{
  public:
    RaggedRightArrayKokkos() = default;
    template <class A, class = decltype(std::declval<A>().size())>
    RaggedRightArrayKokkos(const A& s, SHIM_NAME) { this->build(shim_strides(s), 1, 1, 2, nm); }
    template <class A, class = decltype(std::declval<A>().size())>
    RaggedRightArrayKokkos(const A& s, size_t d1, SHIM_NAME) { this->build(shim_strides(s), d1, 1, 3, nm); }
    template <class A, class = decltype(std::declval<A>().size())>
    RaggedRightArrayKokkos(const A& s, size_t d1, size_t d2, SHIM_NAME) { this->build(shim_strides(s), d1, d2, 4, nm); }
};

template <class T> class DRaggedRightArrayKokkos : public RaggedBase<T>
{
  public:
    RaggedBase<T> host;
    DRaggedRightArrayKokkos() = default;
    template <class A, class = decltype(std::declval<A>().size())>
    DRaggedRightArrayKokkos(const A& s, SHIM_NAME) { this->build(shim_strides(s), 1, 1, 2, nm); bind(); }
    template <class A, class = decltype(std::declval<A>().size())>
    DRaggedRightArrayKokkos(const A& s, size_t d1, SHIM_NAME) { this->build(shim_strides(s), d1, 1, 3, nm); bind(); }
    template <class A, class = decltype(std::declval<A>().size())>
    DRaggedRightArrayKokkos(const A& s, size_t d1, size_t d2, SHIM_NAME) { this->build(shim_strides(s), d1, d2, 4, nm); bind(); }
    void bind() { host = *this; }
    void update_host() const {}
    void update_device() const {}
};

// rows of up to max entries, grown through stride(i)++
template <class T> class DynamicRaggedRightArrayKokkos
{
  public:
    ShimStride strides_;
    size_t n_ = 0, max_ = 0;
    std::shared_ptr<T[]> own_;
    std::string name_;
    DynamicRaggedRightArrayKokkos() = default;
    DynamicRaggedRightArrayKokkos(size_t n, size_t max, SHIM_NAME) : n_(n), max_(max), name_(nm)
    {
        strides_.s = std::make_shared<std::vector<size_t>>(n, 0);
        own_ = std::shared_ptr<T[]>(new T[n * max ? n * max : 1]());
    }
    size_t& stride(size_t i) const { return strides_(i); }
    T& operator()(size_t i, size_t j) const
    {
        if (i >= n_) shim::out_of_range("rows of", i, n_, name_.c_str());
        if (j >= max_ || j >= strides_(i)) shim::out_of_range("dynamic ragged row", j, strides_(i), name_.c_str());
        return own_[i * max_ + j];
    }
    size_t size() const { return n_ * max_; }
    void set_values(T v) const { for (size_t i = 0; i < n_ * max_; i++) own_[i] = v; }
};

}  // namespace mtr
using namespace mtr;

// ---- loops ------------------------------------------------------------------
#define SHIM_PICK(_1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, NAME, ...) NAME

#define SHIM_FOR1(CAP, i, a, b, ...) \
    { auto shim_f = CAP(const int i) __VA_ARGS__; for (long long shim_i = (long long)(a); shim_i < (long long)(b); shim_i++) shim_f((int)shim_i); }
#define SHIM_FOR2(CAP, i, a, b, j, c, d, ...) \
    { auto shim_f = CAP(const int i, const int j) __VA_ARGS__; \
      for (long long shim_i = (long long)(a); shim_i < (long long)(b); shim_i++) \
      for (long long shim_j = (long long)(c); shim_j < (long long)(d); shim_j++) shim_f((int)shim_i, (int)shim_j); }
#define SHIM_FOR3(CAP, i, a, b, j, c, d, k, e, f, ...) \
    { auto shim_f = CAP(const int i, const int j, const int k) __VA_ARGS__; \
      for (long long shim_i = (long long)(a); shim_i < (long long)(b); shim_i++) \
      for (long long shim_j = (long long)(c); shim_j < (long long)(d); shim_j++) \
      for (long long shim_k = (long long)(e); shim_k < (long long)(f); shim_k++) shim_f((int)shim_i, (int)shim_j, (int)shim_k); }

#define FOR1D(...) SHIM_FOR1([=], __VA_ARGS__)
#define FOR2D(...) SHIM_FOR2([=], __VA_ARGS__)
#define FOR3D(...) SHIM_FOR3([=], __VA_ARGS__)
#define FOR1DC(...) SHIM_FOR1(KOKKOS_CLASS_LAMBDA, __VA_ARGS__)
#define FOR2DC(...) SHIM_FOR2(KOKKOS_CLASS_LAMBDA, __VA_ARGS__)
#define FOR3DC(...) SHIM_FOR3(KOKKOS_CLASS_LAMBDA, __VA_ARGS__)

#define FOR_ALL(...) SHIM_PICK(__VA_ARGS__, _12, _11, FOR3D, _9, _8, FOR2D, _6, _5, FOR1D, _3, _2, _1)(__VA_ARGS__)
#define FOR_ALL_CLASS(...) SHIM_PICK(__VA_ARGS__, _12, _11, FOR3DC, _9, _8, FOR2DC, _6, _5, FOR1DC, _3, _2, _1)(__VA_ARGS__)
#define FOR_FIRST FOR_ALL
#define DO_ALL_NOT_PROVIDED

#define SHIM_RED1(CAP, INIT, i, a, b, var, fcn, result) \
    { using shim_T = std::decay_t<decltype(var)>; shim_T shim_v = INIT; \
      auto shim_f = CAP(const int i, shim_T& var) fcn; \
      for (long long shim_i = (long long)(a); shim_i < (long long)(b); shim_i++) shim_f((int)shim_i, shim_v); \
      result = shim_v; }
#define SHIM_RED2(CAP, INIT, i, a, b, j, c, d, var, fcn, result) \
    { using shim_T = std::decay_t<decltype(var)>; shim_T shim_v = INIT; \
      auto shim_f = CAP(const int i, const int j, shim_T& var) fcn; \
      for (long long shim_i = (long long)(a); shim_i < (long long)(b); shim_i++) \
      for (long long shim_j = (long long)(c); shim_j < (long long)(d); shim_j++) shim_f((int)shim_i, (int)shim_j, shim_v); \
      result = shim_v; }
#define SHIM_RED3(CAP, INIT, i, a, b, j, c, d, k, e, f, var, fcn, result) \
    { using shim_T = std::decay_t<decltype(var)>; shim_T shim_v = INIT; \
      auto shim_f = CAP(const int i, const int j, const int k, shim_T& var) fcn; \
      for (long long shim_i = (long long)(a); shim_i < (long long)(b); shim_i++) \
      for (long long shim_j = (long long)(c); shim_j < (long long)(d); shim_j++) \
      for (long long shim_k = (long long)(e); shim_k < (long long)(f); shim_k++) shim_f((int)shim_i, (int)shim_j, (int)shim_k, shim_v); \
      result = shim_v; }

#define SHIM_SUM shim_T(0)
#define SHIM_MAX std::numeric_limits<shim_T>::lowest()
#define SHIM_MIN std::numeric_limits<shim_T>::max()

#define SHIM_REDPICK(...) SHIM_PICK(__VA_ARGS__, SHIM_RED3, _11, _10, SHIM_RED2, _8, _7, SHIM_RED1, _5, _4, _3, _2, _1)
#define FOR_REDUCE_SUM(...) SHIM_REDPICK(__VA_ARGS__)([=], SHIM_SUM, __VA_ARGS__)
#define FOR_REDUCE_MAX(...) SHIM_REDPICK(__VA_ARGS__)([=], SHIM_MAX, __VA_ARGS__)
#define FOR_REDUCE_MIN(...) SHIM_REDPICK(__VA_ARGS__)([=], SHIM_MIN, __VA_ARGS__)
#define FOR_REDUCE_SUM_CLASS(...) SHIM_REDPICK(__VA_ARGS__)(KOKKOS_CLASS_LAMBDA, SHIM_SUM, __VA_ARGS__)
#define FOR_REDUCE_MAX_CLASS(...) SHIM_REDPICK(__VA_ARGS__)(KOKKOS_CLASS_LAMBDA, SHIM_MAX, __VA_ARGS__)
#define FOR_REDUCE_MIN_CLASS(...) SHIM_REDPICK(__VA_ARGS__)(KOKKOS_CLASS_LAMBDA, SHIM_MIN, __VA_ARGS__)

#define RUN(...) { auto shim_f = [=](const int) __VA_ARGS__; shim_f(0); }
#define RUN_CLASS(...) { auto shim_f = KOKKOS_CLASS_LAMBDA(const int) __VA_ARGS__; shim_f(0); }

#endif
