// Conversions between geometry types, indices and vertex counts.
#include "ops.hh"
#include "topo.hh"
#include <sstream>
#include <dune/geometry/type.hh>
#include <dune/geometry/typeindex.hh>
#include <dune/geometry/utility/typefromvertexcount.hh>
namespace sim {
using namespace Dune;
// a: 0 dim, 1 topology id, 2 none
static void op_types(const Op& op) {
  const int dim = (int)op.a[0]; const unsigned id = (unsigned)op.a[1];
  const bool none = op.a[2];
  Sig s;
  {
    Active a;
    GeometryType t = none ? GeometryTypes::none(dim) : GeometryType(id, dim);
    s.add((unsigned)t.dim()); s.add(t.isNone()); s.add(t.isSimplex()); s.add(t.isCube()); s.add(t.isPrism()); s.add(t.isPyramid());
    if (dim) { s.add(t.isConical()); s.add(t.isPrismatic()); }
    s.add(t.isVertex()); s.add(t.isLine()); s.add(t.isTriangle()); s.add(t.isQuadrilateral()); s.add(t.isTetrahedron()); s.add(t.isHexahedron());
    for (int i = 0; i < dim; ++i) { s.add(t.isConical(i)); s.add(t.isPrismatic(i)); }
    const GeometryType back(t.toId()); s.add(back == t); s.add((unsigned)back.dim()); s.add(back.isNone());
    s.add((unsigned long)LocalGeometryTypeIndex::index(t)); s.add((unsigned long)GlobalGeometryTypeIndex::index(t));
    s.add((unsigned long)LocalGeometryTypeIndex::size(dim)); s.add((unsigned long)GlobalGeometryTypeIndex::size(dim)); s.add((unsigned long)GlobalGeometryTypeIndex::offset(dim));
    GeometryType l = LocalGeometryTypeIndex::type(dim, LocalGeometryTypeIndex::index(t));
    s.add(l == t); s.add(l < t); s.add(t < l); s.add((unsigned)l.dim());
    if (!none && dim < 4) {
      GeometryType p = GeometryTypes::prismaticExtension(t), c = GeometryTypes::conicalExtension(t);
      s.add((unsigned)(p.id() >> 1)); s.add((unsigned)(c.id() >> 1)); s.add(p == c); s.add(p.isPrismatic()); s.add(c.isConical());
    }
    if (!none && dim <= 3 && (dim < 3 || id >> 1 == 0 || id >> 1 == 3 || t.isPrism() || t.isPyramid())) {
      GeometryType v = geometryTypeFromVertexCount(dim, topo_size(id, dim, dim));
      s.add(v == t); s.add((unsigned)v.dim());
    }
    // numbers of vertices no element has
    try { geometryTypeFromVertexCount(dim, dim < 2 ? 1 << dim : dim == 2 ? 5 : 7); s.add(1); }
    catch (const NotImplemented&) { s.add(2); }
  }
  // the text form allocates inside the standard library
  std::ostringstream o; { Active a; GeometryType t = none ? GeometryTypes::none(dim) : GeometryType(id, dim); o << t; }
  const std::string x = o.str(); for (char c : x) s.add((unsigned)c);
  expect(op, s, 0);
}
REGISTER_OP("types", op_types, 3, 0)
}
