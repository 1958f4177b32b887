#include "geo.hh"
namespace sim {
using namespace Dune;
using Element12 = LocalFiniteElementGeometry<Element<double, 1>, 2>; using M29 = MakeLfe<Element12>; GEO(29, 0, NGEOQ + 1 + NCURVQ, 8, Element12, M29)
using Element22 = LocalFiniteElementGeometry<Element<double, 2>, 2>; using M30 = MakeLfe<Element22>; GEO(30, 0, NGEOQ + 1 + NCURVQ, 8, Element22, M30)
using Element23 = LocalFiniteElementGeometry<Element<double, 2>, 3>; using M31 = MakeLfe<Element23>; GEO(31, 0, NGEOQ + 1 + NCURVQ, 8, Element23, M31)
using Element33 = LocalFiniteElementGeometry<Element<double, 3>, 3>; using M32 = MakeLfe<Element33>; GEO(32, 0, NGEOQ + 1 + NCURVQ, 8, Element33, M32)
void geo_setup_lfe() { SharedElement<double, 1>::setup(); SharedElement<double, 2>::setup(); SharedElement<double, 3>::setup(); }
}
