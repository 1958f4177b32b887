#include "geo.hh"
namespace sim {
using namespace Dune;
using Cached12 = CachedMultiLinearGeometry<double, 1, 2>; using MCached12 = MakeMl<Cached12, 0>; GEO(15, 0, NGEOQ, 2, Cached12, MCached12)
using Cached22 = CachedMultiLinearGeometry<double, 2, 2>; using MCached22 = MakeMl<Cached22, 0>; GEO(16, 0, NGEOQ, 4, Cached22, MCached22)
using Cached23 = CachedMultiLinearGeometry<double, 2, 3>; using MCached23 = MakeMl<Cached23, 0>; GEO(17, 0, NGEOQ, 4, Cached23, MCached23)
using Cached33 = CachedMultiLinearGeometry<double, 3, 3>; using MCached33 = MakeMl<Cached33, 0>; GEO(18, 0, NGEOQ, 8, Cached33, MCached33)
}
