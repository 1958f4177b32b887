#include "geo.hh"
namespace sim {
using namespace Dune;
using Multi12 = MultiLinearGeometry<double, 1, 2>; using MMulti12 = MakeMl<Multi12, 0>; GEO(11, V_SHARED, NGEOQ, 2, Multi12, MMulti12)
using Multi22 = MultiLinearGeometry<double, 2, 2>; using MMulti22 = MakeMl<Multi22, 0>; GEO(12, V_SHARED, NGEOQ, 4, Multi22, MMulti22)
using Multi23 = MultiLinearGeometry<double, 2, 3>; using MMulti23 = MakeMl<Multi23, 0>; GEO(13, V_SHARED, NGEOQ, 4, Multi23, MMulti23)
using Multi33 = MultiLinearGeometry<double, 3, 3>; using MMulti33 = MakeMl<Multi33, 0>; GEO(14, V_SHARED, NGEOQ, 8, Multi33, MMulti33)
}
