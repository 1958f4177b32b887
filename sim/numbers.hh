// Number types as users supply them. Every operation is a scheduling point and
// may throw. SimReal behaves like a checked floating point type; SimBig like an
// arbitrary precision type: built from strings, heap-allocated value, copying
// allocates, no numeric_limits.
#ifndef VERIF_NUMBERS_HH
#define VERIF_NUMBERS_HH
#include "sim.hh"
#include <cmath>
#include <cstdlib>
#include <iosfwd>
#include <limits>
#include <ostream>
#include <type_traits>

namespace sim {
struct NumError { int id; };     // thrown by number types
struct CallError { int id; };    // thrown by mappings, bases, creators, ...
void reenter_num();              // nested lookups made by a number type
[[noreturn]] void throw_num(int id);     // as itself, or together with one of the usual base classes
[[noreturn]] void throw_call(int id);
inline void num_op() { int r = num_point(); if (r > 0) throw_num(r); if (r < 0) reenter_num(); }
}

class SimReal {
  double v_;
public:
  SimReal() : v_(0) {}
  template<class T, std::enable_if_t<std::is_arithmetic_v<T>, int> = 0> SimReal(T v) : v_(double(v)) {}
  SimReal(const SimReal&) = default;
  SimReal& operator=(const SimReal&) = default;
  double raw() const { return v_; }
  explicit operator double() const { return v_; }
  explicit operator int() const { return int(v_); }
  SimReal& operator+=(const SimReal& o) { sim::num_op(); v_ += o.v_; return *this; }
  SimReal& operator-=(const SimReal& o) { sim::num_op(); v_ -= o.v_; return *this; }
  SimReal& operator*=(const SimReal& o) { sim::num_op(); v_ *= o.v_; return *this; }
  SimReal& operator/=(const SimReal& o) { sim::num_op(); v_ /= o.v_; return *this; }
  SimReal operator-() const { SimReal r; r.v_ = -v_; return r; }
  SimReal operator+() const { return *this; }
  friend SimReal operator+(SimReal a, const SimReal& b) { return a += b; }
  friend SimReal operator-(SimReal a, const SimReal& b) { return a -= b; }
  friend SimReal operator*(SimReal a, const SimReal& b) { return a *= b; }
  friend SimReal operator/(SimReal a, const SimReal& b) { return a /= b; }
  friend bool operator==(const SimReal& a, const SimReal& b) { return a.v_ == b.v_; }
  friend bool operator!=(const SimReal& a, const SimReal& b) { return a.v_ != b.v_; }
  friend bool operator<(const SimReal& a, const SimReal& b) { return a.v_ < b.v_; }
  friend bool operator>(const SimReal& a, const SimReal& b) { return a.v_ > b.v_; }
  friend bool operator<=(const SimReal& a, const SimReal& b) { return a.v_ <= b.v_; }
  friend bool operator>=(const SimReal& a, const SimReal& b) { return a.v_ >= b.v_; }
  friend SimReal sqrt(const SimReal& a) { sim::num_op(); return SimReal(std::sqrt(a.v_)); }
  friend SimReal abs(const SimReal& a) { return SimReal(std::abs(a.v_)); }
  friend SimReal fabs(const SimReal& a) { return SimReal(std::abs(a.v_)); }
  friend SimReal log10(const SimReal& a) { return SimReal(std::log10(a.v_)); }
  friend SimReal max(const SimReal& a, const SimReal& b) { return a.v_ < b.v_ ? b : a; }
  friend SimReal min(const SimReal& a, const SimReal& b) { return b.v_ < a.v_ ? b : a; }
  friend SimReal floor(const SimReal& a) { return SimReal(std::floor(a.v_)); }
  friend bool isfinite(const SimReal& a) { return std::isfinite(a.v_); }
  friend bool isnan(const SimReal& a) { return std::isnan(a.v_); }
  friend std::ostream& operator<<(std::ostream& s, const SimReal& a) { return s << a.v_; }
};

#define NI __attribute__((noinline))
template<int tag> class SimBigT {
  double* v_;
  NI static double* make(double x) { sim::num_op(); double* p = new double(x); return p; }
public:
  NI SimBigT() : v_(make(0)) {}
  NI SimBigT(const char* s) : v_(make(std::strtod(s, nullptr))) {}
  template<class T, std::enable_if_t<std::is_arithmetic_v<T>, int> = 0> SimBigT(T v) : v_(make(double(v))) {}
  NI SimBigT(const SimBigT& o) : v_(make(*o.v_)) {}
  NI SimBigT& operator=(const SimBigT& o) { sim::num_op(); *v_ = *o.v_; return *this; }
  NI ~SimBigT() { delete v_; }
  double raw() const { return *v_; }
  explicit operator double() const { return *v_; }
  NI SimBigT& operator+=(const SimBigT& o) { sim::num_op(); *v_ += *o.v_; return *this; }
  NI SimBigT& operator-=(const SimBigT& o) { sim::num_op(); *v_ -= *o.v_; return *this; }
  NI SimBigT& operator*=(const SimBigT& o) { sim::num_op(); *v_ *= *o.v_; return *this; }
  NI SimBigT& operator/=(const SimBigT& o) { sim::num_op(); *v_ /= *o.v_; return *this; }
  SimBigT operator-() const { SimBigT r; *r.v_ = -*v_; return r; }
  NI friend SimBigT operator+(const SimBigT& a, const SimBigT& b) { SimBigT r(a); r += b; return r; }
  NI friend SimBigT operator-(const SimBigT& a, const SimBigT& b) { SimBigT r(a); r -= b; return r; }
  NI friend SimBigT operator*(const SimBigT& a, const SimBigT& b) { SimBigT r(a); r *= b; return r; }
  NI friend SimBigT operator/(const SimBigT& a, const SimBigT& b) { SimBigT r(a); r /= b; return r; }
  friend bool operator==(const SimBigT& a, const SimBigT& b) { return *a.v_ == *b.v_; }
  friend bool operator!=(const SimBigT& a, const SimBigT& b) { return *a.v_ != *b.v_; }
  friend bool operator<(const SimBigT& a, const SimBigT& b) { return *a.v_ < *b.v_; }
  friend bool operator>(const SimBigT& a, const SimBigT& b) { return *a.v_ > *b.v_; }
  friend bool operator<=(const SimBigT& a, const SimBigT& b) { return *a.v_ <= *b.v_; }
  friend bool operator>=(const SimBigT& a, const SimBigT& b) { return *a.v_ >= *b.v_; }
  friend SimBigT sqrt(const SimBigT& a) { return SimBigT(std::sqrt(*a.v_)); }
  friend SimBigT abs(const SimBigT& a) { return SimBigT(std::abs(*a.v_)); }
  friend bool isnan(const SimBigT& a) { return std::isnan(*a.v_); }
  friend SimBigT max(const SimBigT& a, const SimBigT& b) { return *a.v_ < *b.v_ ? b : a; }
  friend SimBigT min(const SimBigT& a, const SimBigT& b) { return *b.v_ < *a.v_ ? b : a; }
  friend std::ostream& operator<<(std::ostream& s, const SimBigT& a) { return s << *a.v_; }
};

// SimBig: no numeric_limits. SimMp: the same with numeric_limits, usable as a
// coordinate type of geometries.
using SimBig = SimBigT<0>;
using SimMp = SimBigT<1>;

#undef NI

inline double raw(double x) { return x; }
inline double raw(float x) { return x; }
inline double raw(long double x) { return (double)x; }
inline double raw(const SimReal& x) { return x.raw(); }
template<int t> inline double raw(const SimBigT<t>& x) { return x.raw(); }

template<> class std::numeric_limits<SimReal> : public std::numeric_limits<double> {
public:
  static SimReal epsilon() { return std::numeric_limits<double>::epsilon(); }
  static SimReal min() { return std::numeric_limits<double>::min(); }
  static SimReal max() { return std::numeric_limits<double>::max(); }
  static SimReal lowest() { return std::numeric_limits<double>::lowest(); }
  static SimReal infinity() { return std::numeric_limits<double>::infinity(); }
  static SimReal quiet_NaN() { return std::numeric_limits<double>::quiet_NaN(); }
};

template<> class std::numeric_limits<SimMp> : public std::numeric_limits<double> {
public:
  static SimMp epsilon() { return std::numeric_limits<double>::epsilon(); }
  static SimMp min() { return std::numeric_limits<double>::min(); }
  static SimMp max() { return std::numeric_limits<double>::max(); }
  static SimMp lowest() { return std::numeric_limits<double>::lowest(); }
};

#include <dune/common/typetraits.hh>
namespace Dune {
  template<> struct IsNumber<SimReal> : std::true_type {};
  template<int t> struct IsNumber<SimBigT<t>> : std::true_type {};
}
#endif
