// Geometries, their corners, mappings and finite elements as users supply them.
#ifndef VERIF_GEO_HH
#define VERIF_GEO_HH
#include "vals.hh"
#include "topo.hh"
#include <array>
#include <functional>
#include <optional>
#include <vector>
#include <dune/common/fvector.hh>
#include <dune/common/fmatrix.hh>
#include <dune/common/rangeutilities.hh>
#include <dune/geometry/affinegeometry.hh>
#include <dune/geometry/axisalignedcubegeometry.hh>
#include <dune/geometry/multilineargeometry.hh>
#include <dune/geometry/mappedgeometry.hh>
#include <dune/geometry/localfiniteelementgeometry.hh>
#include <dune/geometry/referenceelements.hh>
#include <dune/geometry/quadraturerules.hh>

namespace sim {

using Dune::FieldVector; using Dune::FieldMatrix; using Dune::GeometryType;

// shape 0 identity, 1 and 2 exactly affine, 3..6 perturbed
inline double affine_entry(int shape, int row, int col) {
  static const double A[3][3][3] = {{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}, {{2, 0.5, 0.25}, {-0.5, 1.5, 0.125}, {0.25, 0.5, 1.25}}, {{0.5, -1, 0.25}, {1, 0.5, 0.5}, {0.125, -0.25, 2}}};
  return A[shape < 3 ? shape : shape % 3][row][col];
}
inline double shift(int shape, int row) { return shape ? 0.5 * ((shape + row) % 4) - 0.25 : 0; }
inline double wobble(int shape, int corner, int row) { return shape < 3 ? 0 : ((int)(mix(shape, corner * 8 + row) % 65) - 32) / 256.0; }

// the parametrisation in plain numbers
inline void place(int shape, const double* x, int mydim, int corner, double* y, int cdim) {
  for (int r = 0; r < cdim; ++r) {
    y[r] = shift(shape, r) + wobble(shape, corner, r);
    for (int c = 0; c < mydim; ++c) y[r] += affine_entry(shape, r, c) * x[c];
  }
}
template<class ct, int cdim> std::vector<FieldVector<ct, cdim>> corner_vector(unsigned id, int mydim, int shape) {
  double x[16][4]; int n = topo_corners(id, mydim, x);
  std::vector<FieldVector<ct, cdim>> v(n);
  for (int i = 0; i < n; ++i) { double y[4]; place(shape, x[i], mydim, i, y, cdim); for (int r = 0; r < cdim; ++r) v[i][r] = ct(y[r]); }
  return v;
}
constexpr int NPOINT = 3;
inline double point(int p, int j) { static const double P[3][3] = {{0.2, 0.3, 0.1}, {0.5, 0.125, 0.25}, {0.0625, 0.25, 0.5}}; return P[p][j]; }

template<class M> void add_matrix(const M& m, int r, int c, Sig& s) {
  if constexpr (requires { m.diagonal(); }) { for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) if (i == j) s.add(m.diagonal()[i]); else s.add(0.0); }
  else for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) s.add(m[i][j]);
}

constexpr int NPOINTQ = 4 + 7 * NPOINT;
constexpr int NGEOQ = NPOINTQ + 2;       // every geometry
constexpr int NCURVQ = 9;                // in addition those with iterative volume and inverse
struct GeoQuery {
  template<class G> static void query(const G& g, int q, Sig& s) {
    constexpr int m = G::mydimension, d = G::coorddimension;
    using ct = typename G::ctype;
    if (q == 0) {
      s.add((bool)g.affine()); s.add((unsigned)(g.type().id() >> 1)); s.add((unsigned)g.type().dim()); s.add(g.corners());
      auto e = referenceElement(g);
      s.add((unsigned)(e.type().id() >> 1)); for (int c = 0; c <= m; ++c) s.add(e.size(c));
      return;
    }
    if (q == 1) { int n = g.corners(); for (int i = 0; i < n; ++i) { auto c = g.corner(i); s.vec(c, d); } return; }
    if (q == 2) { auto c = g.center(); s.vec(c, d); return; }
    if (q == 3) { s.add(g.volume()); return; }
    if (q < NPOINTQ) {
      typename G::LocalCoordinate x(ct(0));
      for (int j = 0; j < m; ++j) x[j] = ct(point((q - 4) / 7, j));
      switch ((q - 4) % 7) {
        case 0: { auto y = g.global(x); s.vec(y, d); return; }
        case 1: { auto y = g.local(g.global(x)); s.vec(y, m); return; }
        case 2: s.add(g.integrationElement(x)); return;
        case 3: add_matrix(g.jacobianTransposed(x), m, d, s); return;
        case 4: add_matrix(g.jacobianInverseTransposed(x), d, m, s); return;
        case 5: add_matrix(g.jacobian(x), d, m, s); return;
        default: add_matrix(g.jacobianInverse(x), m, d, s); return;
      }
    }
    if (q == NPOINTQ) {                          // results stay what they are while others are asked for
      typename G::LocalCoordinate x(ct(0)), z(ct(0));
      for (int j = 0; j < m; ++j) { x[j] = ct(point(0, j)); z[j] = ct(point(1, j)); }
      auto&& a = g.jacobianTransposed(x); auto&& b = g.jacobianInverseTransposed(x); auto&& y = g.global(x); auto&& c0 = g.corner(0);
      auto&& a2 = g.jacobianTransposed(z); auto&& b2 = g.jacobianInverseTransposed(z); auto&& y2 = g.global(z); auto&& c1 = g.corner(g.corners() - 1);
      add_matrix(a, m, d, s); add_matrix(b, d, m, s); add_matrix(a2, m, d, s); add_matrix(b2, d, m, s);
      s.vec(y, d); s.vec(y2, d); s.vec(c0, d); s.vec(c1, d);
      return;
    }
    if (q == NPOINTQ + 1) {                      // away from the element
      typename G::LocalCoordinate x(ct(0)); for (int j = 0; j < m; ++j) x[j] = ct(j % 2 ? 1.5 : -0.5);
      auto y = g.global(x); s.vec(y, d); s.add(g.integrationElement(x)); add_matrix(g.jacobian(x), d, m, s);
      return;
    }
    if constexpr (requires { g.coefficients(); }) {
      if (q == NGEOQ) { s.add((int)g.order()); s.add((unsigned long)g.coefficients().size()); for (const auto& v : g.coefficients()) s.vec(v, d); return; }
      q--;
    }
    if constexpr (requires { g.volume(Dune::QuadratureRules<ct, m>::rule(g.type(), 2)); }) {
      switch (q - NGEOQ) {
        case 0: s.add(g.volume(Dune::QuadratureRules<ct, m>::rule(g.type(), 2))); return;
        case 1: s.add(g.volume(Dune::QuadratureRules<ct, m>::rule(g.type(), 0))); return;
        case 2: if constexpr (requires { g.volume({.maxIt = 3}); }) s.add(g.volume({.maxIt = 3})); return;
        case 3: if constexpr (requires { g.volume({.absTol = ct(0.25)}); }) s.add(g.volume({.absTol = ct(0.25)})); return;
        default: {
          typename G::LocalCoordinate x(ct(0)); for (int j = 0; j < m; ++j) x[j] = ct(point(0, j));
          if constexpr (requires { g.local(g.global(x), {.absTol = ct(0.05)}); }) {
            typename G::LocalCoordinate y(ct(0));
            switch (q - NGEOQ) {
              case 4: y = g.local(g.global(x), {.absTol = ct(0.05)}); break;
              case 5: y = g.local(g.global(x), {.absTol = ct(1e-13)}); break;
              case 6: for (int j = 0; j < m; ++j) x[j] = ct(5 - 2 * j); y = g.local(g.global(x)); break;     // many steps
              case 7: y = g.local(g.global(x), {.maxIt = 1}); break;                                         // perhaps too few
              default: { for (int j = 0; j < m; ++j) x[j] = ct(-12 + j); auto z = g.global(x); z[0] += ct(3); y = g.local(z, {.maxIt = 12}); }
            }
            s.vec(y, m);
          }
          return;
        }
      }
    }
  }
};

// ------------------------------------------------------------------ makers
template<class G> struct MakeAffine {
  static void make(G* p, int id, int shape) {
    using ct = typename G::ctype; constexpr int m = G::mydimension, d = G::coorddimension;
    GeometryType gt(id, m);
    if (gt.isSimplex() && (shape & 1)) { std::vector<FieldVector<ct, d>> c = corner_vector<ct, d>(id, m, shape); ::new ((void*)p) G(gt, c); return; }
    FieldVector<ct, d> o; FieldMatrix<ct, m, d> jt;
    for (int r = 0; r < d; ++r) { o[r] = ct(shift(shape, r) + wobble(shape, 0, r)); for (int c = 0; c < m; ++c) jt[c][r] = ct(affine_entry(shape, r, c) + wobble(shape, c + 1, r)); }
    if (shape & 2) ::new ((void*)p) G(gt, o, jt);
    else ::new ((void*)p) G(Dune::ReferenceElements<ct, m>::general(gt), o, jt);
  }
};
template<class G> struct MakeAxis {
  static void make(G* p, int id, int shape) {
    using ct = typename G::ctype; constexpr int m = G::mydimension, d = G::coorddimension;
    FieldVector<ct, d> lo, up;
    for (int r = 0; r < d; ++r) { lo[r] = ct(shift(shape, r)); up[r] = ct(shift(shape, r) + 1 + 0.25 * (shape % 5) + 0.5 * r); }
    if constexpr (m == 0) { ::new ((void*)p) G(lo); (void)id; }
    else if constexpr (m == d) { if (shape & 1) { ::new ((void*)p) G(lo, up); return; } std::bitset<d> b; b.set(); ::new ((void*)p) G(lo, up, b); }
    else { std::bitset<d> b; for (int i = 0; i < m; ++i) b.set((id + i) % d); ::new ((void*)p) G(lo, up, b); }
  }
};
// corner arrays shared by many geometries, filled before the run starts
template<class ct, int m, int d> struct SharedCorners { static inline std::vector<FieldVector<ct, d>> v[16][8]; static void setup() { for (int i = 0; i < (1 << m); ++i) for (int s = 0; s < 8; ++s) v[i][s] = corner_vector<ct, d>(i, m, s); } };

template<class G, int mode> struct MakeMl {   // mode 0 own corners, 1 shared array, 2 cube only
  static void make(G* p, int id, int shape) {
    using ct = typename G::ctype; constexpr int m = G::mydimension, d = G::coorddimension;
    if (mode == 2) id = (1 << m) - 1;
    GeometryType gt(id, m);
    if constexpr (mode == 1) {
      if (shape & 1) ::new ((void*)p) G(gt, SharedCorners<ct, m, d>::v[id][shape]);
      else ::new ((void*)p) G(Dune::ReferenceElements<ct, m>::general(gt), SharedCorners<ct, m, d>::v[id][shape]);
    } else {
      std::vector<FieldVector<ct, d>> c = corner_vector<ct, d>(id, m, shape);
      if (shape & 1) ::new ((void*)p) G(gt, c);
      else ::new ((void*)p) G(Dune::ReferenceElements<ct, m>::general(gt), c);
    }
  }
};
template<class ct> struct RefCornerTraits : Dune::MultiLinearGeometryTraits<ct> {
  template<int m, int d> struct CornerStorage { typedef std::reference_wrapper<const std::vector<FieldVector<ct, d>>> Type; };
};
template<class ct> struct CubeTraits : Dune::MultiLinearGeometryTraits<ct> {
  template<int m, int d> struct CornerStorage { typedef std::array<FieldVector<ct, d>, (1 << m)> Type; };
  template<int dim> struct hasSingleGeometryType { static const bool v = true; static const unsigned int topologyId = (1u << dim) - 1; };
};
// corner storage that computes on access, as grids with lazily read vertices do
template<class ct, int d> class LazyCorners {
  std::vector<FieldVector<ct, d>> v_;
public:
  template<class C> explicit LazyCorners(const C& c) { call_op(1); v_.assign(std::begin(c), std::end(c)); call_op(2); }
  LazyCorners(const LazyCorners& o) : v_(o.v_) { call_op(0); }
  LazyCorners& operator=(const LazyCorners& o) { call_op(0); v_ = o.v_; return *this; }
  const FieldVector<ct, d>& operator[](std::size_t i) const { call_op((int)i); return v_[i]; }
  struct It {
    const LazyCorners* c; std::size_t i;
    const FieldVector<ct, d>& operator*() const { return (*c)[i]; }
    It& operator++() { ++i; return *this; }
  };
  It begin() const { return It{this, 0}; }
  It end() const { return It{this, v_.size()}; }
};
template<class ct> struct LazyTraits : Dune::MultiLinearGeometryTraits<ct> {
  template<int m, int d> struct CornerStorage { typedef LazyCorners<ct, d> Type; };
};

// ------------------------------------------------------------------ mappings
template<class ct, int n> class Bend {
  std::vector<ct> k_;
public:
  Bend() : k_(2) {}
  Bend(double a, double b) : k_(2) { k_[0] = ct(a); k_[1] = ct(b); }
  FieldVector<ct, n> operator()(const FieldVector<ct, n>& x) const {
    call_op(0);
    FieldVector<ct, n> y = x;
    y[0] += k_[0] * x[n - 1] * x[n - 1];
    call_op(1);
    y[n - 1] += k_[1] * x[0] * x[n - 1];
    return y;
  }
  class D {
    std::vector<ct> k_;
  public:
    explicit D(const std::vector<ct>& k) : k_(k) {}
    FieldMatrix<ct, n, n> operator()(const FieldVector<ct, n>& x) const {
      call_op(2);
      FieldMatrix<ct, n, n> j;
      for (int i = 0; i < n; ++i) for (int l = 0; l < n; ++l) j[i][l] = ct(i == l);
      j[0][n - 1] += ct(2) * k_[0] * x[n - 1];
      call_op(3);
      j[n - 1][0] += k_[1] * x[n - 1];
      j[n - 1][n - 1] += k_[1] * x[0];
      return j;
    }
  };
  friend D derivative(const Bend& b) { call_op(4); return D(b.k_); }
};
// bend[shape] objects shared by all geometries that use the same mapping
template<class ct, int n> struct SharedBend { static inline Bend<ct, n>* b[8]; static void setup() { for (int s = 0; s < 8; ++s) b[s] = new Bend<ct, n>(s ? 0.0625 * s : 0, 0.03125 * (s % 3)); } };
template<class ct, int n> struct BendRef {
  const Bend<ct, n>* b = nullptr;
  FieldVector<ct, n> operator()(const FieldVector<ct, n>& x) const { return (*b)(x); }
  struct D { typename Bend<ct, n>::D d; FieldMatrix<ct, n, n> operator()(const FieldVector<ct, n>& x) const { return d(x); } };
  friend D derivative(const BendRef& r) { return D{derivative(*r.b)}; }
};
template<class G, class Map, class Inner, class InnerMake> struct MakeMapped {
  static void make(G* p, int id, int shape) {
    constexpr int n = Inner::coorddimension; using ct = typename Inner::ctype;
    struct Tmp { alignas(Inner) unsigned char b[sizeof(Inner)]; bool live = false; Inner* get() { return reinterpret_cast<Inner*>(b); } ~Tmp() { if (live) get()->~Inner(); } } t;
    InnerMake::make(t.get(), id, shape); t.live = true;
    bool affine = shape == 0 && t.get()->affine();
    if constexpr (std::is_same_v<Map, BendRef<ct, n>>) ::new ((void*)p) G(Map{SharedBend<ct, n>::b[shape]}, *t.get(), affine);
    else ::new ((void*)p) G(*SharedBend<ct, n>::b[shape], *t.get(), affine);
  }
};

// ------------------------------------------------------------------ finite elements
template<class ct, int dim> struct BasisTraits {
  using DomainFieldType = ct; using RangeFieldType = ct;
  using DomainType = FieldVector<ct, dim>; using RangeType = FieldVector<ct, 1>; using JacobianType = FieldMatrix<ct, 1, dim>;
  enum { dimDomain = dim, dimRange = 1 };
};
// Lagrange elements of order 1 and 2 on simplices and cubes
template<class ct, int dim> class Basis {
  bool cube_ = false; int order_ = 1;
  static ct phi(int order, int k, const ct& x) { return order == 1 ? (k ? x : ct(1) - x) : k == 0 ? (ct(1) - x) * (ct(1) - ct(2) * x) : k == 1 ? ct(4) * x * (ct(1) - x) : x * (ct(2) * x - ct(1)); }
  static ct dphi(int order, int k, const ct& x) { return order == 1 ? ct(k ? 1 : -1) : k == 0 ? ct(4) * x - ct(3) : k == 1 ? ct(4) - ct(8) * x : ct(4) * x - ct(1); }
public:
  using Traits = BasisTraits<ct, dim>;
  Basis() = default;
  Basis(bool c, int o) : cube_(c), order_(o) {}
  bool cube() const { return cube_; }
  unsigned order() const { return order_; }
  std::size_t size() const { if (cube_) { std::size_t n = 1; for (int i = 0; i < dim; ++i) n *= order_ + 1; return n; } return order_ == 1 ? dim + 1 : (dim + 1) * (dim + 2) / 2; }
  void evaluateFunction(const FieldVector<ct, dim>& x, std::vector<FieldVector<ct, 1>>& out) const {
    call_op(0);
    out.resize(size());
    call_op(1);
    if (cube_) for (std::size_t i = 0; i < out.size(); ++i) { ct v(1); for (std::size_t j = 0, k = i; j < dim; ++j, k /= order_ + 1) v *= phi(order_, (int)(k % (order_ + 1)), x[j]); out[i][0] = v; if (i == out.size() / 2) call_op(2); }
    else {
      ct b[dim + 1]; b[0] = ct(1); for (int j = 0; j < dim; ++j) { b[0] -= x[j]; b[j + 1] = x[j]; }
      for (int i = 0; i <= dim; ++i) out[i][0] = order_ == 1 ? b[i] : b[i] * (ct(2) * b[i] - ct(1));
      call_op(2);
      if (order_ == 2) { int e = dim + 1; for (int i = 0; i <= dim; ++i) for (int j = i + 1; j <= dim; ++j) out[e++][0] = ct(4) * b[i] * b[j]; }
    }
  }
  void evaluateJacobian(const FieldVector<ct, dim>& x, std::vector<FieldMatrix<ct, 1, dim>>& out) const {
    call_op(3);
    out.resize(size());
    call_op(4);
    if (cube_) for (std::size_t i = 0; i < out.size(); ++i) {
      for (int l = 0; l < dim; ++l) { ct v(1); for (std::size_t j = 0, k = i; j < dim; ++j, k /= order_ + 1) v *= (int)j == l ? dphi(order_, (int)(k % (order_ + 1)), x[j]) : phi(order_, (int)(k % (order_ + 1)), x[j]); out[i][0][l] = v; }
      if (i == out.size() / 2) call_op(5);
    }
    else {
      ct b[dim + 1]; b[0] = ct(1); for (int j = 0; j < dim; ++j) { b[0] -= x[j]; b[j + 1] = x[j]; }
      auto db = [](int i, int l) { return ct(i == 0 ? -1 : i == l + 1); };
      for (int i = 0; i <= dim; ++i) for (int l = 0; l < dim; ++l) out[i][0][l] = order_ == 1 ? db(i, l) : (ct(4) * b[i] - ct(1)) * db(i, l);
      call_op(5);
      if (order_ == 2) { int e = dim + 1; for (int i = 0; i <= dim; ++i) for (int j = i + 1; j <= dim; ++j, ++e) for (int l = 0; l < dim; ++l) out[e][0][l] = ct(4) * (b[i] * db(j, l) + b[j] * db(i, l)); }
    }
  }
  // nodes in plain numbers
  void node(int i, double* x) const {
    if (cube_) { for (int j = 0; j < dim; ++j, i /= order_ + 1) x[j] = (i % (order_ + 1)) / double(order_); return; }
    for (int j = 0; j < dim; ++j) x[j] = 0;
    if (i <= dim) { if (i) x[i - 1] = 1; return; }
    int e = dim + 1;
    for (int a = 0; a <= dim; ++a) for (int b = a + 1; b <= dim; ++b, ++e) if (e == i) { if (a) x[a - 1] = 0.5; x[b - 1] = 0.5; return; }
  }
};
template<class ct, int dim> class Interpolation {
  Basis<ct, dim> b_;
public:
  Interpolation() = default;
  explicit Interpolation(const Basis<ct, dim>& b) : b_(b) {}
  template<class F, class C> void interpolate(const F& f, std::vector<C>& out) const {
    out.resize(b_.size());
    for (std::size_t i = 0; i < out.size(); ++i) {
      call_op((int)i);
      double y[3]; b_.node((int)i, y);
      FieldVector<ct, dim> x; for (int j = 0; j < dim; ++j) x[j] = ct(y[j]);
      out[i] = f(x);
    }
  }
};
template<class ct, int dim> class Element {
  Basis<ct, dim> basis_; Interpolation<ct, dim> inter_; std::vector<double> payload_;
public:
  struct Traits { using LocalBasisType = Basis<ct, dim>; using LocalInterpolationType = Interpolation<ct, dim>; };
  Element() = default;
  Element(bool cube, int order) : basis_(cube, order), inter_(basis_), payload_(4, order) {}
  const Basis<ct, dim>& localBasis() const { return basis_; }
  const Interpolation<ct, dim>& localInterpolation() const { return inter_; }
  std::size_t size() const { return basis_.size(); }
};
// elements shared by all geometries
template<class ct, int dim> struct SharedElement { static inline Element<ct, dim>* e[2][2]; static void setup() { for (int c = 0; c < 2; ++c) for (int o = 0; o < 2; ++o) e[c][o] = new Element<ct, dim>(c, o + 1); } };

// variant: bit 0 cube, bit 1 order 2, bit 2 by interpolation
template<class G> struct MakeLfe {
  static void make(G* p, int id, int shape) {
    using ct = typename G::ctype; constexpr int m = G::mydimension, d = G::coorddimension;
    const Element<ct, m>& e = *SharedElement<ct, m>::e[id & 1][id >> 1 & 1];
    GeometryType gt = id & 1 ? Dune::GeometryTypes::cube(m) : Dune::GeometryTypes::simplex(m);
    if (id & 4) {
      auto f = [shape](const FieldVector<ct, m>& x) {
        call_op(0);
        double xx[3], y[3]; for (int j = 0; j < m; ++j) xx[j] = raw(x[j]);
        place(shape < 3 ? shape : 0, xx, m, 0, y, d);
        FieldVector<ct, d> r; for (int i = 0; i < d; ++i) { r[i] = ct(y[i] + (shape >= 3 ? 0.0625 * (shape - 2) * xx[m - 1] * xx[0] : 0)); }
        call_op(1);
        return r;
      };
      if (shape & 1) ::new ((void*)p) G(gt, e, f);
      else ::new ((void*)p) G(Dune::ReferenceElements<ct, m>::general(gt), e, f);
      return;
    }
    std::vector<FieldVector<ct, d>> v(e.size());
    for (std::size_t i = 0; i < v.size(); ++i) {
      double x[3], y[3]; e.localBasis().node((int)i, x); place(shape, x, m, (int)i, y, d);
      for (int r = 0; r < d; ++r) v[i][r] = ct(y[r]);
    }
    if (shape & 1) ::new ((void*)p) G(gt, e, v);
    else ::new ((void*)p) G(Dune::ReferenceElements<ct, m>::general(gt), e, std::move(v));
  }
};

// absolute oracle for reference runs: the point is found again, corners and
// derivative agree with the mapping
template<class G> void geo_check(const void* vp, int id, int shape, const char* name) {
  const G& g = *static_cast<const G*>(vp);
  constexpr int m = G::mydimension, d = G::coorddimension; using ct = typename G::ctype;
  if constexpr (m == 0 || std::is_same_v<ct, float>) { (void)g; (void)id; (void)shape; (void)name; return; }
  else {
    try {
      for (int p = 0; p < NPOINT; ++p) {
        typename G::LocalCoordinate x(ct(0)); for (int j = 0; j < m; ++j) x[j] = ct(point(p, j));
        auto y = g.global(x); auto z = g.local(y);
        for (int j = 0; j < m; ++j) if (!std::isnan(raw(y[0])) && !close(raw(z[j]), raw(x[j]), 1e-6)) violate("value", "%s (variant %d, shape %d): local(global(x)) is not x", name, id, shape);
        auto jt = g.jacobianTransposed(x);
        for (int j = 0; j < m; ++j) {
          auto xp = x, xm = x; xp[j] += ct(1e-5); xm[j] -= ct(1e-5);
          auto yp = g.global(xp), ym = g.global(xm);
          typename G::LocalCoordinate ej(ct(0)); ej[j] = ct(1);
          typename G::GlobalCoordinate col(ct(0)); jt.mtv(ej, col);
          for (int r = 0; r < d; ++r) { double n = (raw(yp[r]) - raw(ym[r])) / 2e-5; if (!std::isnan(n) && !close(raw(col[r]), n, 1e-4)) violate("value", "%s (variant %d, shape %d): derivative does not fit the mapping", name, id, shape); }
        }
      }
    } catch (const Dune::Exception&) {}
  }
}
#define GEO(index, flags, nq, variants, G, M) static VReg reg_##index(index, make_vtype<G>(#G, flags, nq, variants, M(), GeoQuery(), geo_check<G>));
}
#endif
