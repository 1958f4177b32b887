#include "geo.hh"
namespace sim {
using namespace Dune;
using Affine11 = AffineGeometry<double, 1, 1>; using M57 = MakeAffine<Affine11>; GEO(57, V_SHARED, NGEOQ, 2, Affine11, M57)
using Affine13 = AffineGeometry<double, 1, 3>; using M58 = MakeAffine<Affine13>; GEO(58, V_SHARED, NGEOQ, 2, Affine13, M58)
using FloatAffine22 = AffineGeometry<float, 2, 2>; using M59 = MakeAffine<FloatAffine22>; GEO(59, V_SHARED | V_SINGLE, NGEOQ, 4, FloatAffine22, M59)
using FloatCached33 = CachedMultiLinearGeometry<float, 3, 3>; using M60 = MakeMl<FloatCached33, 0>; GEO(60, V_SINGLE, NGEOQ, 8, FloatCached33, M60)
using Multi11 = MultiLinearGeometry<double, 1, 1>; using M61 = MakeMl<Multi11, 0>; GEO(61, V_SHARED, NGEOQ, 2, Multi11, M61)
using Cached13 = CachedMultiLinearGeometry<double, 1, 3>; using M62 = MakeMl<Cached13, 0>; GEO(62, 0, NGEOQ, 2, Cached13, M62)
using Axis11 = AxisAlignedCubeGeometry<double, 1, 1>; using M63 = MakeAxis<Axis11>; GEO(63, V_SHARED, NGEOQ, 1, Axis11, M63)
using Axis2 = AxisAlignedCubeGeometry<double, 2, 2>;
using MappedAxis22 = MappedGeometry<Bend<double, 2>, Axis2>; using M64 = MakeMapped<MappedAxis22, Bend<double, 2>, Axis2, MakeAxis<Axis2>>; GEO(64, V_SHARED, NGEOQ + NCURVQ, 1, MappedAxis22, M64)
using Element11 = LocalFiniteElementGeometry<Element<double, 1>, 1>; using M65 = MakeLfe<Element11>; GEO(65, 0, NGEOQ + 1 + NCURVQ, 8, Element11, M65)
using Element13 = LocalFiniteElementGeometry<Element<double, 1>, 3>; using M66 = MakeLfe<Element13>; GEO(66, 0, NGEOQ + 1 + NCURVQ, 8, Element13, M66)
using RealElement12 = LocalFiniteElementGeometry<Element<SimReal, 1>, 2>; using M67 = MakeLfe<RealElement12>; GEO(67, 0, NGEOQ + 1 + NCURVQ, 8, RealElement12, M67)
using FloatElement22 = LocalFiniteElementGeometry<Element<float, 2>, 2>; using M68 = MakeLfe<FloatElement22>; GEO(68, V_SINGLE, NGEOQ + 1 + NCURVQ, 8, FloatElement22, M68)
// a mapped mapped geometry
using Inner22 = MappedGeometry<BendRef<double, 2>, AffineGeometry<double, 2, 2>>;
using MInner22 = MakeMapped<Inner22, BendRef<double, 2>, AffineGeometry<double, 2, 2>, MakeAffine<AffineGeometry<double, 2, 2>>>;
using MappedTwice22 = MappedGeometry<Bend<double, 2>, Inner22>; using M69 = MakeMapped<MappedTwice22, Bend<double, 2>, Inner22, MInner22>; GEO(69, V_SHARED, NGEOQ + NCURVQ, 4, MappedTwice22, M69)
// a mapped finite element geometry
using Curved22 = LocalFiniteElementGeometry<Element<double, 2>, 2>;
using MappedElement22 = MappedGeometry<Bend<double, 2>, Curved22>; using M70 = MakeMapped<MappedElement22, Bend<double, 2>, Curved22, MakeLfe<Curved22>>; GEO(70, 0, NGEOQ + NCURVQ, 8, MappedElement22, M70)
void geo_setup_more() { SharedElement<float, 2>::setup(); SharedElement<SimReal, 1>::setup(); }
}
