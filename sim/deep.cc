// Volumes of curved geometries with a tolerance that is never met, so that the
// iteration runs into the highest available order.
#include "geo.hh"
namespace sim {
using namespace Dune;
template<class ct> static void deep(const Op& op) {
  const int which = (int)op.a[1];
  const int most = (int)op.a[2];
  Sig s;
  {
    Active a;
    if (which == 0) {
      using A = AffineGeometry<ct, 1, 2>; using G = MappedGeometry<Bend<ct, 2>, A>;
      alignas(G) unsigned char b[sizeof(G)];
      MakeMapped<G, Bend<ct, 2>, A, MakeAffine<A>>::make(reinterpret_cast<G*>(b), 0, 3);
      G* g = reinterpret_cast<G*>(b);
      struct Drop { G* g; ~Drop() { g->~G(); } } drop{g};
      s.add(g->volume({.maxIt = most, .absTol = ct(0)}));
    } else {
      using G = LocalFiniteElementGeometry<Element<ct, 1>, 2>;
      alignas(G) unsigned char b[sizeof(G)];
      MakeLfe<G>::make(reinterpret_cast<G*>(b), 2, 3);
      G* g = reinterpret_cast<G*>(b);
      struct Drop { G* g; ~Drop() { g->~G(); } } drop{g};
      s.add(g->volume({.maxIt = most, .absTol = ct(0)}));
    }
  }
  // more iterations than there are rules cannot have been made
  unsigned adv = QuadratureRules<ct, 1>::maxOrder(GeometryTypes::line);
  if (most - 1 > (int)adv && refmode() && cares(A_ABSOLUTE)) violate("range", "%s: the iteration went past the highest order without being refused", op_text(op));
  expect(op, s, 1e-9);
}
// a: 0 number type, 1 kind of geometry, 2 iterations
static void op_deepvol(const Op& op) { op.a[0] ? deep<SimReal>(op) : deep<double>(op); }
REGISTER_OP("deepvol", op_deepvol, 3, OP_CAN_REFUSE)
}
