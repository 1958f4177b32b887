// Reference element lookups, one number type and dimension per instantiation.
#include "ops.hh"
#include "topo.hh"
#include <utility>
#include <dune/geometry/referenceelements.hh>
#include <dune/geometry/multilineargeometry.hh>
#include <dune/geometry/axisalignedcubegeometry.hh>

namespace sim {

template<class ct, int dim> using RefEl = typename Dune::ReferenceElements<ct, dim>::ReferenceElement;

template<class ct, int dim, int codim>
void read_embeddings(const RefEl<ct, dim>& e, Sig& s) {
  for (int i = 0; i < e.size(codim); ++i) {
    auto g = e.template geometry<codim>(i);
    s.add((unsigned)(g.type().id() >> 1)); s.add(g.corners());
    for (int k = 0; k < g.corners(); ++k) { auto c = g.corner(k); for (int j = 0; j < dim; ++j) s.add(c[j]); }
    s.add(g.volume());
    auto m = g.center(); for (int j = 0; j < dim; ++j) s.add(m[j]);
    if constexpr (codim < dim) {
      const auto& jt = g.jacobianTransposed(typename decltype(g)::LocalCoordinate(ct(0)));
      for (int a = 0; a < dim - codim; ++a) for (int b = 0; b < dim; ++b) s.add(jt[a][b]);
    }
  }
}

// everything a handle gives access to
template<class ct, int dim>
void read_refel(const RefEl<ct, dim>& e, int extent, Sig& s) {
  s.add((unsigned)(e.type().id() >> 1)); s.add((unsigned)e.type().dim());
  for (int c = 0; c <= dim; ++c) s.add(e.size(c));
  s.add(e.volume());
  if (!extent) return;
  for (int c = 0; c <= dim; ++c) for (int i = 0; i < e.size(c); ++i) {
    s.add((unsigned)(e.type(i, c).id() >> 1)); s.add((unsigned)e.type(i, c).dim());
    auto p = e.position(i, c); for (int j = 0; j < dim; ++j) s.add(p[j]);
    for (int cc = 0; cc <= dim; ++cc) {
      s.add(e.size(i, c, cc));
      if (cc < c) continue;
      for (int k = 0; k < e.size(i, c, cc); ++k) s.add(e.subEntity(i, c, k, cc));
      auto r = e.subEntities(i, c, cc);
      s.add((unsigned long)r.size()); for (auto k : r) s.add((unsigned)k);
      for (int k = 0; k < e.size(cc); ++k) s.add((bool)r.contains(k));
    }
  }
  if constexpr (dim > 0) for (int f = 0; f < e.size(1); ++f) { auto n = e.integrationOuterNormal(f); for (int j = 0; j < dim; ++j) s.add(n[j]); }
  s.add((bool)e.checkInside(e.position(0, 0)));
  [&]<int... c>(std::integer_sequence<int, c...>) { (read_embeddings<ct, dim, c>(e, s), ...); }(std::make_integer_sequence<int, dim + 1>());
}

// absolute oracle, reference runs only
template<class ct, int dim>
void check_refel(const RefEl<ct, dim>& e, unsigned id, const Op& op) {
  auto bad = [&](const char* w) { violate("value", "%s: %s", op_text(op), w); };
  const double tol = std::is_same_v<ct, float> ? 1e-5 : 1e-12;
  for (int c = 0; c <= dim; ++c) if (e.size(c) != topo_size(id, dim, c)) bad("wrong number of subentities");
  if (!topo_same(e.type().id(), id, dim) || (int)e.type().dim() != dim) bad("wrong type");
  if (!close(raw(e.volume()), topo_volume(id, dim), tol)) bad("wrong volume");
  double x[16][4]; int n = topo_corners(id, dim, x);
  for (int i = 0; i < n; ++i) for (int j = 0; j < dim; ++j) if (!close(raw(e.position(i, dim)[j]), x[i][j], tol)) bad("wrong corner");
  for (int c = 0; c <= dim; ++c) for (int i = 0; i < e.size(c); ++i) {
    int m = e.size(i, c, dim); if (m < 1 || m != topo_size(e.type(i, c).id(), dim - c, dim - c)) bad("subentity with wrong number of corners");
    for (int j = 0; j < dim; ++j) {
      double a = 0; for (int k = 0; k < m; ++k) a += x[e.subEntity(i, c, k, dim)][j];
      if (!close(raw(e.position(i, c)[j]), a / m, tol)) bad("position is not the centre of the subentity's corners");
    }
  }
  if constexpr (dim > 0) {
    double sum[4] = {0, 0, 0, 0};
    for (int f = 0; f < e.size(1); ++f) {
      double d = 0; auto nn = e.integrationOuterNormal(f);
      double v = topo_volume(e.type(f, 1).id(), dim - 1);
      for (int j = 0; j < dim; ++j) { sum[j] += raw(nn[j]) * v; d += raw(nn[j]) * (raw(e.position(f, 1)[j]) - raw(e.position(0, 0)[j])); }
      if (!(d > 0)) bad("a normal does not point outwards");
    }
    for (int j = 0; j < dim; ++j) if (!close(sum[j], 0, 10 * tol)) bad("normals do not close");
  }
}

template<class ct, int dim> struct Handles { static inline RefEl<ct, dim> h[16]; static inline bool set[16]; };

template<class ct, int dim>
void reread_refel(const Kept& k) {
  Sig s;
  { Active a; read_refel<ct, dim>(*static_cast<const RefEl<ct, dim>*>(k.p), (int)k.op->a[3], s); }
  kept_check(k, s);
}

// a: 0 number type, 1 dim, 2 topology id, 3 extent, 4 entry point, 5 keep
template<class ct, int dim>
void refel_op(const Op& op) {
  using namespace Dune;
  const unsigned id = (unsigned)op.a[2];
  const GeometryType gt(id, dim);
  RefEl<ct, dim> h;
  Sig s;
  {
    Active a;
    switch (op.a[4]) {
      case 1: if (gt.isSimplex() && gt.id() == GeometryTypes::simplex(dim).id()) { h = ReferenceElements<ct, dim>::simplex(); break; }
              if (gt.isCube() && gt.id() == GeometryTypes::cube(dim).id()) { h = ReferenceElements<ct, dim>::cube(); break; }
              h = ReferenceElements<ct, dim>::general(gt); break;
      case 2: {                                   // iteration over all elements
        unsigned k = 0; bool found = false;
        for (auto it = ReferenceElements<ct, dim>::begin(); it != ReferenceElements<ct, dim>::end(); ++it, ++k)
          if (it->type().id() == gt.id() && !found) { h = *it; found = true; }
        Paused p;
        if (!cares(A_VALUE)) break;
        if (k != (1u << dim)) violate("value", "iteration over reference elements of dimension %d visits %u", dim, k);
        if (!found) violate("value", "iteration over reference elements of dimension %d misses type %u", dim, id);
        break;
      }
      case 3: h = referenceElement<ct, dim>(gt); break;
      case 4: h = referenceElement(ct(), gt, Dim<dim>()); break;
      case 5:
        if constexpr (dim > 0 && dim <= 3) {      // by way of a geometry
          std::vector<FieldVector<ct, dim>> c(topo_size(id, dim, dim), FieldVector<ct, dim>(ct(0)));
          double x[16][4]; topo_corners(id, dim, x);
          for (std::size_t i = 0; i < c.size(); ++i) for (int j = 0; j < dim; ++j) c[i][j] = ct(x[i][j]);
          MultiLinearGeometry<ct, dim, dim> g(gt, c);
          h = referenceElement(g);
        } else h = ReferenceElements<ct, dim>::general(gt);
        break;
      case 6:
        if (gt.isCube() && gt.id() == GeometryTypes::cube(dim).id()) {
          AxisAlignedCubeGeometry<ct, dim, dim> g(FieldVector<ct, dim>(ct(0)), FieldVector<ct, dim>(ct(1)));
          h = referenceElement(g);
        } else h = ReferenceElements<ct, dim>::general(gt);
        break;
      default: h = ReferenceElements<ct, dim>::general(gt);
    }
    read_refel<ct, dim>(h, (int)op.a[3], s);
  }
  if (refmode() && cares(A_ABSOLUTE)) { check_refel<ct, dim>(h, id, op); }
  expect(op, s, 0);
  using H = Handles<ct, dim>;
  if (cares(A_IDENTITY)) for (unsigned k = 0; k < (1u << dim); ++k) if (H::set[k]) {
    if (k == id) {
      if (!(H::h[k] == h) || H::h[k] != h || hash_value(H::h[k]) != hash_value(h)) violate("identity", "%s: two lookups of the same reference element give different handles", op_text(op));
      probe(5);
    } else if (!topo_same(k, id, dim) && (H::h[k] == h || !(H::h[k] != h))) violate("identity", "%s: handles of different reference elements compare equal", op_text(op));
  }
  H::h[id] = h; H::set[id] = true;
  if (op.a[5]) keep(new RefEl<ct, dim>(h), op, reread_refel<ct, dim>, s);
}

} // namespace sim
