#include "geo.hh"
namespace sim {
using namespace Dune;
using RealAffine22 = AffineGeometry<SimReal, 2, 2>; using M33 = MakeAffine<RealAffine22>; GEO(33, V_SHARED, NGEOQ, 4, RealAffine22, M33)
using RealMulti22 = MultiLinearGeometry<SimReal, 2, 2>; using M34 = MakeMl<RealMulti22, 0>; GEO(34, V_SHARED, NGEOQ, 4, RealMulti22, M34)
using RealCached23 = CachedMultiLinearGeometry<SimReal, 2, 3>; using M35 = MakeMl<RealCached23, 0>; GEO(35, 0, NGEOQ, 4, RealCached23, M35)
using RealAxis22 = AxisAlignedCubeGeometry<SimReal, 2, 2>; using M36 = MakeAxis<RealAxis22>; GEO(36, V_SHARED, NGEOQ, 1, RealAxis22, M36)
using RealCached22 = CachedMultiLinearGeometry<SimReal, 2, 2>;
using RealMapped22 = MappedGeometry<Bend<SimReal, 2>, RealCached22>; using M37 = MakeMapped<RealMapped22, Bend<SimReal, 2>, RealCached22, MakeMl<RealCached22, 0>>; GEO(37, 0, NGEOQ + NCURVQ, 4, RealMapped22, M37)
using RealElement22 = LocalFiniteElementGeometry<Element<SimReal, 2>, 2>; using M38 = MakeLfe<RealElement22>; GEO(38, 0, NGEOQ + 1 + NCURVQ, 8, RealElement22, M38)
void geo_setup_real() { SharedBend<SimReal, 2>::setup(); SharedElement<SimReal, 2>::setup(); }
}
