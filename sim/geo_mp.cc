#include "geo.hh"
namespace sim {
using namespace Dune;
using MpAffine12 = AffineGeometry<SimMp, 1, 2>; using M39 = MakeAffine<MpAffine12>; GEO(39, V_SHARED, NGEOQ, 2, MpAffine12, M39)
using MpCached22 = CachedMultiLinearGeometry<SimMp, 2, 2>; using M40 = MakeMl<MpCached22, 0>; GEO(40, 0, NGEOQ, 4, MpCached22, M40)
using MpAxis12 = AxisAlignedCubeGeometry<SimMp, 1, 2>; using M41 = MakeAxis<MpAxis12>; GEO(41, V_SHARED, NGEOQ, 2, MpAxis12, M41)
}
