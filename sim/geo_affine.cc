#include "geo.hh"
namespace sim {
using namespace Dune;
using Affine02 = AffineGeometry<double, 0, 2>; using MAffine02 = MakeAffine<Affine02>; GEO(0, V_SHARED, NGEOQ, 1, Affine02, MAffine02)
using Affine12 = AffineGeometry<double, 1, 2>; using MAffine12 = MakeAffine<Affine12>; GEO(1, V_SHARED, NGEOQ, 2, Affine12, MAffine12)
using Affine22 = AffineGeometry<double, 2, 2>; using MAffine22 = MakeAffine<Affine22>; GEO(2, V_SHARED, NGEOQ, 4, Affine22, MAffine22)
using Affine23 = AffineGeometry<double, 2, 3>; using MAffine23 = MakeAffine<Affine23>; GEO(3, V_SHARED, NGEOQ, 4, Affine23, MAffine23)
using Affine33 = AffineGeometry<double, 3, 3>; using MAffine33 = MakeAffine<Affine33>; GEO(4, V_SHARED, NGEOQ, 8, Affine33, MAffine33)
using Axis03 = AxisAlignedCubeGeometry<double, 0, 3>; using MAxis03 = MakeAxis<Axis03>; GEO(5, V_SHARED, NGEOQ, 1, Axis03, MAxis03)
using Axis12 = AxisAlignedCubeGeometry<double, 1, 2>; using MAxis12 = MakeAxis<Axis12>; GEO(6, V_SHARED, NGEOQ, 2, Axis12, MAxis12)
using Axis13 = AxisAlignedCubeGeometry<double, 1, 3>; using MAxis13 = MakeAxis<Axis13>; GEO(7, V_SHARED, NGEOQ, 3, Axis13, MAxis13)
using Axis22 = AxisAlignedCubeGeometry<double, 2, 2>; using MAxis22 = MakeAxis<Axis22>; GEO(8, V_SHARED, NGEOQ, 1, Axis22, MAxis22)
using Axis23 = AxisAlignedCubeGeometry<double, 2, 3>; using MAxis23 = MakeAxis<Axis23>; GEO(9, V_SHARED, NGEOQ, 3, Axis23, MAxis23)
using Axis33 = AxisAlignedCubeGeometry<double, 3, 3>; using MAxis33 = MakeAxis<Axis33>; GEO(10, V_SHARED, NGEOQ, 1, Axis33, MAxis33)
}
