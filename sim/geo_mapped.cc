#include "geo.hh"
namespace sim {
using namespace Dune;
using A12 = AffineGeometry<double, 1, 2>; using L22 = MultiLinearGeometry<double, 2, 2>; using C23 = CachedMultiLinearGeometry<double, 2, 3>; using L33 = MultiLinearGeometry<double, 3, 3>;
using MappedAffine12 = MappedGeometry<Bend<double, 2>, A12>; using M25 = MakeMapped<MappedAffine12, Bend<double, 2>, A12, MakeAffine<A12>>; GEO(25, V_SHARED, NGEOQ + NCURVQ, 2, MappedAffine12, M25)
using MappedMulti22 = MappedGeometry<BendRef<double, 2>, L22>; using M26 = MakeMapped<MappedMulti22, BendRef<double, 2>, L22, MakeMl<L22, 0>>; GEO(26, V_SHARED, NGEOQ + NCURVQ, 4, MappedMulti22, M26)
using MappedCached23 = MappedGeometry<Bend<double, 3>, C23>; using M27 = MakeMapped<MappedCached23, Bend<double, 3>, C23, MakeMl<C23, 0>>; GEO(27, 0, NGEOQ + NCURVQ, 4, MappedCached23, M27)
using MappedMulti33 = MappedGeometry<BendRef<double, 3>, L33>; using M28 = MakeMapped<MappedMulti33, BendRef<double, 3>, L33, MakeMl<L33, 0>>; GEO(28, V_SHARED, NGEOQ + NCURVQ, 8, MappedMulti33, M28)
// user code evaluates a geometry of its own
template<class G, class M> static void inner_volume() {
  alignas(G) unsigned char b[sizeof(G)];
  M::make(reinterpret_cast<G*>(b), 0, 1);
  G* g = reinterpret_cast<G*>(b);
  struct Drop { G* g; ~Drop() { g->~G(); } } drop{g};
  double v = g->volume(QuadratureRules<double, G::mydimension>::rule(g->type(), 2));
  if (!(v > 0)) violate("value", "a geometry evaluated inside user code reports the volume %g", v);
}
void reenter_geo(int which) {
  probe(26);
  switch (which % 3) {
    case 0: return inner_volume<MappedAffine12, M25>();
    case 1: return inner_volume<MappedMulti22, M26>();
    default: return inner_volume<MappedMulti33, M28>();
  }
}
void geo_setup_mapped() { SharedBend<double, 2>::setup(); SharedBend<double, 3>::setup(); }
}
