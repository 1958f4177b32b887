#include "geo.hh"
namespace sim {
using namespace Dune;
using MultiShared22 = MultiLinearGeometry<double, 2, 2, RefCornerTraits<double>>; using M19 = MakeMl<MultiShared22, 1>; GEO(19, V_SHARED, NGEOQ, 4, MultiShared22, M19)
using MultiShared33 = MultiLinearGeometry<double, 3, 3, RefCornerTraits<double>>; using M20 = MakeMl<MultiShared33, 1>; GEO(20, V_SHARED, NGEOQ, 8, MultiShared33, M20)
template<class G> struct MakeCube { static void make(G* p, int, int shape) {
  constexpr int m = G::mydimension, d = G::coorddimension;
  std::array<FieldVector<double, d>, (1 << m)> a; auto v = corner_vector<double, d>((1 << m) - 1, m, shape);
  std::copy(v.begin(), v.end(), a.begin());
  ::new ((void*)p) G(GeometryTypes::cube(m), a);
} };
using MultiCube22 = MultiLinearGeometry<double, 2, 2, CubeTraits<double>>; using M21 = MakeCube<MultiCube22>; GEO(21, V_SHARED, NGEOQ, 1, MultiCube22, M21)
using CachedCube23 = CachedMultiLinearGeometry<double, 2, 3, CubeTraits<double>>; using M22 = MakeCube<CachedCube23>; GEO(22, 0, NGEOQ, 1, CachedCube23, M22)
using MultiLazy22 = MultiLinearGeometry<double, 2, 2, LazyTraits<double>>; using M23 = MakeMl<MultiLazy22, 0>; GEO(23, V_SHARED, NGEOQ, 4, MultiLazy22, M23)
using CachedLazy23 = CachedMultiLinearGeometry<double, 2, 3, LazyTraits<double>>; using M24 = MakeMl<CachedLazy23, 0>; GEO(24, 0, NGEOQ, 4, CachedLazy23, M24)
void geo_setup_storage() { SharedCorners<double, 2, 2>::setup(); SharedCorners<double, 3, 3>::setup(); }
}
