// Quadrature requests, one number type and dimension per instantiation.
#include "ops.hh"
#include <cassert>
#include <dune/common/dynmatrix.hh>
#include <dune/common/dynmatrixev.hh>
#include <dune/geometry/quadraturerules.hh>

namespace sim {

// Legendre polynomial of degree k on [0,1]; bounded by one, so a rule that is one
// degree short of its promise is off by far more than rounding.
inline double legendre(int k, double x) {
  double t = 2 * x - 1, a = 1, b = t;
  if (k == 0) return 1;
  for (int i = 2; i <= k; ++i) { double c = ((2 * i - 1) * t * b - (i - 1) * a) / i; a = b; b = c; }
  return b;
}
// Gauss points on [0,1], computed here (independent of the library's rules)
inline void gauss(int n, double* x, double* w) {
  for (int i = 0; i < n; ++i) {
    long double t = std::cos(3.14159265358979323846L * (i + 0.75L) / (n + 0.5L)), d = 1;
    for (int it = 0; it < 60; ++it) {
      long double a = 1, b = t;
      for (int k = 2; k <= n; ++k) { long double c = ((2 * k - 1) * t * b - (k - 1) * a) / k; a = b; b = c; }
      d = n * (t * b - a) / (t * t - 1);
      long double s = b / d; t -= s;
      if (std::abs(s) < 1e-18L) break;
    }
    x[i] = (double)((1 + t) / 2); w[i] = (double)(1 / ((1 - t * t) * d * d));
  }
}
// Integral of prod legendre(e_i, x_i) over the reference element with this topology
// id, by the recursive prism/cone construction of the domain. Below, the coordinates
// are scaled by `scale`.
struct Moment {
  int n; double x[160], w[160]; unsigned id; const int* e;
  Moment(int order, int dim) { n = order / 2 + dim + 1; if (n > 150) n = 150; gauss(n, x, w); }
  double part(int dim, double scale) const {
    if (dim == 0) return 1;
    const bool prism = dim == 1 || ((id >> (dim - 1)) & 1);
    if (prism) {
      double s = 0;
      for (int i = 0; i < n; ++i) s += w[i] * legendre(e[dim - 1], scale * x[i]);
      return s * scale * part(dim - 1, scale);
    }
    double s = 0;
    for (int i = 0; i < n; ++i) s += w[i] * legendre(e[dim - 1], scale * x[i]) * part(dim - 1, scale * (1 - x[i]));
    return s * scale;
  }
  double operator()(unsigned i, int dim, const int* ex) { id = i; e = ex; return part(dim, 1); }
};

template<class ct, int dim>
void read_rule(const Dune::QuadratureRule<ct, dim>& r, Sig& s, Dune::GeometryType* type = nullptr, int* order = nullptr) {
  s.add(r.order());
  if (order) *order = r.order();
  if (type) *type = r.type();
  s.add((unsigned)(r.type().id() >> 1)); s.add((unsigned)r.type().dim()); s.add(r.type().isNone());
  s.add((unsigned long)r.size());
  for (const auto& p : r) { for (int i = 0; i < dim; ++i) s.add(p.position()[i]); s.add(p.weight()); }
  if (!r.empty()) { auto [x, w] = r[r.size() / 2]; for (int i = 0; i < dim; ++i) s.add(x[i]); s.add(w); }
}

// absolute oracle, reference runs only (nothing is scheduled here)
template<class ct, int dim>
void check_exact(const Dune::QuadratureRule<ct, dim>& r, unsigned id, int qt, const Op& op) {
  if ((qt == 1 || qt == 2) && dim != 1) return;      // weighted families
  const int order = r.order();
  if (dim == 0) return;
  Rng rng(mix(op.a[3], id * 8 + qt));
  // as many test functions as a few million evaluations allow
  const int tests = dim == 1 ? order + 1 : r.size() > 20000 ? 4 : r.size() > 3000 ? 8 : 24;
  Moment moment(order + (dim == 1 ? qt : 0), dim);
  for (int t = 0; t < tests; ++t) {
    int e[8] = {0}, left = dim == 1 ? t : (t == 0 ? 0 : t < (tests + 1) / 2 ? order : rng.range(0, order));
    for (int i = 0; i < dim; ++i) { e[i] = i == dim - 1 ? left : rng.range(0, left); left -= e[i]; }
    if (t == 1 && dim > 1) { for (int i = 0; i < dim; ++i) e[i] = 0; e[0] = order; }
    if (t == 2 && dim > 1) { for (int i = 0; i < dim; ++i) e[i] = 0; e[dim - 1] = order; }
    double sum = 0, mag = 0;
    for (const auto& p : r) { double v = raw(p.weight()); for (int i = 0; i < dim; ++i) v *= legendre(e[i], raw(p.position()[i])); sum += v; mag += std::abs(raw(p.weight())); }
    double want;
    if (dim == 1 && (qt == 1 || qt == 2)) {      // the tables carry the weight (1-x)^a for [-1,1]
      want = 0;
      for (int i = 0; i < moment.n; ++i) want += moment.w[i] * legendre(t, moment.x[i]) * std::pow(2 * (1 - moment.x[i]), qt);
    }
    else want = moment(id, dim, e);
    double tol = 1e-10 + (std::is_same_v<ct, float> ? 1e-4 + 1e-6 * order * order : 0);
    if (!(std::abs(sum - want) <= tol * (std::abs(want) + mag)))
      violate("exactness", "%s reports order %d but integrates the product of Legendre polynomials of degree (%d,%d,%d,%d) to %.15g instead of %.15g", op_text(op), r.order(), e[0], e[1], e[2], e[3], sum, want);
  }
}

template<class ct, int dim>
void reread_rule(const Kept& k) {
  Sig s;
  { Active a; read_rule(*static_cast<const Dune::QuadratureRule<ct, dim>*>(k.p), s); }
  kept_check(k, s);
}

// a: 0 number type, 1 dim, 2 topology id, 3 order, 4 family, 5 api, 6 keep
template<class ct, int dim>
void quad_rule(const Op& op) {
  using namespace Dune;
  const GeometryType gt((unsigned)op.a[2], dim);
  const auto qt = QuadratureType::Enum(op.a[4]);
  const int p = (int)op.a[3];
  // orders nobody advertises must be refused (dimension 0 has one rule for all orders)
  unsigned adv; { Active a; adv = QuadratureRules<ct, dim>::maxOrder(gt, qt); }
  const bool outside = dim > 0 && (p < 0 || (unsigned)p > adv);
  Sig s; GeometryType t; int order = -1;
  const QuadratureRule<ct, dim>* r;
  try {
    Active a;
    if (op.a[5] == 1 && (gt.isSimplex() || gt.isCube() || gt.isPrism() || gt.isPyramid()))
      r = &QuadratureRules<ct, dim>::rule(gt.isSimplex() ? GeometryType::simplex : gt.isCube() ? GeometryType::cube : gt.isPrism() ? GeometryType::prism : GeometryType::pyramid, p, qt);
    else
      r = &QuadratureRules<ct, dim>::rule(gt, p, qt);
    read_rule(*r, s, &t, &order);
  } catch (const NotImplemented& e) {
    if (refmode() && cares(A_ABSOLUTE) && !outside && (std::is_floating_point_v<ct> || qt != QuadratureType::GaussJacobi_n_0))
      violate("refused", "%s is refused although order %d is advertised up to %u", op_text(op), p, adv);
    throw;
  }
  if (outside && cares(A_ABSOLUTE)) violate("range", "%s is outside the advertised 0..%u but was served with a rule of order %d", op_text(op), adv, order);
  if (t != gt && cares(A_VALUE)) violate("value", "%s returned a rule for another geometry type", op_text(op));
  if (dim > 0 && order < p && cares(A_VALUE)) violate("value", "%s returned a rule of order %d", op_text(op), order);
  if (refmode() && cares(A_ABSOLUTE)) check_exact(*r, (unsigned)op.a[2], (int)op.a[4], op);
  expect(op, s, 0);
  same_identity(hkey({1, op.a[0], dim, dim ? op.a[2] >> 1 : 0, p, op.a[4]}), r, op_text(op));
  if (op.a[6]) keep(const_cast<QuadratureRule<ct, dim>*>(r), op, reread_rule<ct, dim>, s);
}

// many different rules of one dimension, one after the other
// a: 0 number type, 1 dim, 2 topology id, 3 lowest order, 4 family, 5 how many, 6 orders per type
template<class ct, int dim>
void quad_sweep(const Op& op) {
  using namespace Dune;
  Sig s;
  for (int i = 0; i < op.a[5]; ++i) {
    const int step = i / (int)op.a[6];
    const unsigned id = (unsigned)(op.a[2] + step) & ((1u << dim) - 1);
    const int family = (int)(op.a[4] + (step >> dim)) % 7, p = (int)op.a[3] + i % (int)op.a[6];
    const GeometryType gt(id, dim);
    const auto qt = QuadratureType::Enum(family);
    if (!std::is_floating_point_v<ct> && family == 3) continue;
    const QuadratureRule<ct, dim>* r; unsigned adv;
    {
      Active a;
      adv = QuadratureRules<ct, dim>::maxOrder(gt, qt);
      if ((unsigned)p > adv) continue;
      r = &QuadratureRules<ct, dim>::rule(gt, p, qt);
      s.add(r->order()); s.add((unsigned long)r->size()); s.add(r->back().weight()); s.add((*r)[0].position()[0]);
    }
    same_identity(hkey({1, op.a[0], dim, dim ? id >> 1 : 0, p, family}), r, op_text(op));
  }
  expect(op, s, 0);
}

// types for which there is no rule
// a: 0 number type, 1 dim, 2 which, 3 order, 4 family
template<class ct, int dim>
void quad_none(const Op& op) {
  using namespace Dune;
  const auto qt = QuadratureType::Enum(op.a[4]);
  const int p = (int)op.a[3];
  int which = (int)op.a[2];
  if (which < 2 && dim == 3) which += 2;
  static const GeometryType::BasicType basic[4] = {GeometryType::prism, GeometryType::pyramid, GeometryType::extended, GeometryType::none};
  { Active a; QuadratureRules<ct, dim>::rule(basic[which], p, qt); }
  violate("range", "%s: a rule was served for a type that does not exist in this dimension", op_text(op));
}

} // namespace sim
