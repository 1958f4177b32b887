// Copies of rules, composite rules and vertex orders as values.
#include "vals.hh"
#include "topo.hh"
#include <vector>
#include <dune/geometry/quadraturerules.hh>
#include <dune/geometry/quadraturerules/compositequadraturerule.hh>
#include <dune/geometry/generalvertexorder.hh>
namespace sim {
using namespace Dune;

struct RuleQuery {
  template<class R> static void query(const R& r, int q, Sig& s) {
    constexpr int dim = R::d;
    if (q == 0) { s.add(r.order()); s.add((unsigned)(r.type().id() >> 1)); s.add((unsigned)r.type().dim()); s.add((unsigned long)r.size()); return; }
    int k = 0;
    for (const auto& p : r) { if (++k > 40) break; auto x = p.position(); s.vec(x, dim); s.add(p.weight()); }
    auto sum = typename R::value_type::Field(0); for (const auto& p : r) sum += p.weight();
    s.add(sum);
  }
};
template<class R, class ct, int dim> struct MakeRule {
  static void make(R* p, int id, int shape) { ::new ((void*)p) R(QuadratureRules<ct, dim>::rule(GeometryType(id, dim), 2 * shape)); }
};
template<class R, class ct, int dim> void rule_check(const void* p, int id, int shape, const char* name) {
  const R& r = *static_cast<const R*>(p);
  double w = 0; for (const auto& q : r) { w += raw(q.weight()); double x[4]; for (int j = 0; j < dim; ++j) x[j] = raw(q.position()[j]); if (!topo_inside(id, dim, x, 1e-9)) violate("value", "%s (variant %d, shape %d) has a point outside", name, id, shape); }
  if (!close(w, topo_volume(id, dim), 1e-8)) violate("value", "%s (variant %d, shape %d): weights add up to %g", name, id, shape, w);
}
using Rule1 = QuadratureRule<double, 1>; using M48 = MakeRule<Rule1, double, 1>; static VReg r48(48, make_vtype<Rule1>("copied rule (1d)", V_SHARED, 2, 2, M48(), RuleQuery(), rule_check<Rule1, double, 1>));
using Rule3 = QuadratureRule<double, 3>; using M49 = MakeRule<Rule3, double, 3>; static VReg r49(49, make_vtype<Rule3>("copied rule (3d)", V_SHARED, 2, 8, M49(), RuleQuery(), rule_check<Rule3, double, 3>));
using RuleR2 = QuadratureRule<SimReal, 2>; using M50 = MakeRule<RuleR2, SimReal, 2>; static VReg r50(50, make_vtype<RuleR2>("copied rule (2d, number type)", V_SHARED, 2, 4, M50(), RuleQuery(), rule_check<RuleR2, SimReal, 2>));

template<class R, class ct, int dim> struct MakeComposite {
  static void make(R* p, int id, int shape) { ::new ((void*)p) R(QuadratureRules<ct, dim>::rule(GeometryTypes::simplex(dim), id), refinementIntervals(1 + shape % 3)); }
};
template<class R, class ct, int dim> void composite_check(const void* p, int, int shape, const char* name) { rule_check<R, ct, dim>(p, 0, shape, name); }
using Composite1 = CompositeQuadratureRule<double, 1>; using M51 = MakeComposite<Composite1, double, 1>; static VReg r51(51, make_vtype<Composite1>("composite rule (1d)", V_SHARED, 2, 5, M51(), RuleQuery(), composite_check<Composite1, double, 1>));
using Composite2 = CompositeQuadratureRule<double, 2>; using M52 = MakeComposite<Composite2, double, 2>; static VReg r52(52, make_vtype<Composite2>("composite rule (2d)", V_SHARED, 2, 5, M52(), RuleQuery(), composite_check<Composite2, double, 2>));
using CompositeR2 = CompositeQuadratureRule<SimReal, 2>; using M53 = MakeComposite<CompositeR2, SimReal, 2>; static VReg r53(53, make_vtype<CompositeR2>("composite rule (2d, number type)", V_SHARED, 2, 3, M53(), RuleQuery(), composite_check<CompositeR2, SimReal, 2>));
using Composite3 = CompositeQuadratureRule<double, 3>; using M54 = MakeComposite<Composite3, double, 3>; static VReg r54(54, make_vtype<Composite3>("composite rule (3d)", V_SHARED, 2, 3, M54(), RuleQuery(), composite_check<Composite3, double, 3>));

template<class O, int dim> struct MakeOrder {
  static void make(O* p, int id, int shape) {
    GeometryType gt(id, dim); int n = topo_size(id, dim, dim);
    std::vector<unsigned long> v(n); for (int i = 0; i < n; ++i) v[i] = mix(shape, i) % 1000;
    ::new ((void*)p) O(gt, v.begin(), v.end());
  }
};
struct OrderQuery {
  template<class O> static void query(const O& o, int q, Sig& s) {
    constexpr int dim = O::dimension;
    auto e = ReferenceElements<double, dim>::general(o.type());
    if (q == 0) { s.add((unsigned)(o.type().id() >> 1)); for (auto it = o.begin(0, 0); it != o.end(0, 0); ++it) s.add((unsigned long)*it); return; }
    std::vector<typename O::Index> r;
    for (int i = 0; i < e.size(q - 1); ++i) {
      o.getReduced(q - 1, i, r);
      for (auto x : r) s.add((unsigned long)x);
      auto b = o.begin(q - 1, i); s.add((long)(o.end(q - 1, i) - b)); s.add((unsigned long)b[0]);
    }
  }
};
template<class O, int dim> void order_check(const void* p, int id, int shape, const char* name) {
  const O& o = *static_cast<const O*>(p);
  int n = topo_size(id, dim, dim); double got[16]; int k = 0;
  for (auto it = o.begin(0, 0); it != o.end(0, 0) && k < 16; ++it) got[k++] = (double)*it;
  if (k != n) violate("value", "%s: wrong number of vertices", name);
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
    auto a = mix(shape, i) % 1000, b = mix(shape, j) % 1000;
    if ((a < b && got[i] >= got[j]) || (a == b && got[i] != got[j])) violate("value", "%s (variant %d, shape %d): the order of the vertices is not kept", name, id, shape);
  }
}
using Order2 = GeneralVertexOrder<2>; using M55 = MakeOrder<Order2, 2>; static VReg r55(55, make_vtype<Order2>("vertex order (2d)", V_SHARED, 4, 4, M55(), OrderQuery(), order_check<Order2, 2>));
using Order3 = GeneralVertexOrder<3>; using M56 = MakeOrder<Order3, 3>; static VReg r56(56, make_vtype<Order3>("vertex order (3d)", V_SHARED, 5, 8, M56(), OrderQuery(), order_check<Order3, 3>));
}
