// Traversals of refinements, one number type and dimension per instantiation.
#include "vals.hh"
#include "topo.hh"
#include <vector>
#include <dune/geometry/virtualrefinement.hh>

namespace sim {

inline bool refine_supported(int dim, unsigned id, unsigned co) {
  unsigned simplex = 0, cube = (1u << dim) - 2; id &= ~1u; co &= ~1u;
  if (dim == 1) return true;
  if (id == simplex) return co == simplex;
  if (id == cube) return co == simplex || co == cube;
  return dim == 3 && co == simplex;              // prism and pyramid
}
inline int refine_elements(int dim, unsigned id, unsigned co, int n) {
  int e = 1; for (int i = 0; i < dim; ++i) e *= n;
  id &= ~1u; co &= ~1u;
  if (id == 0 || id == co) return e;
  if (id == (1u << dim) - 2) { for (int i = 2; i <= dim; ++i) e *= i; return e; }   // cube cut into simplices
  if (dim == 3 && (id & 4)) return 3 * e;        // prism
  return 2 * e;                                  // pyramid
}

// The end is never reached by this many steps: iteration that does not stop.
constexpr int REFINE_CAP = 100000;

template<class R, class B, class E> void add_vertices(const B& begin, const E& end, int dim, Sig& s, bool copies) {
  int i = 0;
  B it(begin), late(begin); int lag = 0;
  for (; it != end; ++it, ++i) {
    if (i > REFINE_CAP) { Paused p; violate("value", "a traversal of vertices does not end"); }
    s.add((int)it.index()); auto c = it.coords(); s.vec(c, dim);
    if (copies && i % 3 == 1) {
      B twin(it);                                // runs ahead, must not disturb
      ++twin;
      if constexpr (std::is_copy_assignable_v<B>) if (i % 2) { twin = it; s.add((bool)(twin == it)); }
      for (; lag < i; ++lag) ++late;
      s.add((int)late.index() - (int)it.index());
      s.add((bool)(late == it));
    }
  }
  s.add(i);
}
template<class R, class B, class E> void add_elements(const B& begin, const E& end, int dim, Sig& s, bool copies) {
  int i = 0;
  B it(begin), late(begin); int lag = 0;
  for (; it != end; ++it, ++i) {
    if (i > REFINE_CAP) { Paused p; violate("value", "a traversal of elements does not end"); }
    s.add((int)it.index()); auto c = it.coords(); s.vec(c, dim);
    auto v = it.vertexIndices();
    int n = (int)v.size();
    s.add(n); for (int k = 0; k < n; ++k) s.add((int)v[k]);
    if (copies && i % 3 == 1) {
      B twin(it);
      ++twin;
      if constexpr (std::is_copy_assignable_v<B>) if (i % 2) { twin = it; s.add((bool)(twin == it)); }
      for (; lag < i; ++lag) ++late;
      s.add((int)late.index() - (int)it.index());
      s.add((bool)(late == it));
    }
  }
  s.add(i);
}

// absolute oracle, reference runs only
template<class ct, int dim> void check_refine(const Dune::VirtualRefinement<dim, ct>& r, unsigned id, unsigned co, int n, const Op& op) {
  auto bad = [&](const char* w) { violate("value", "%s: %s", op_text(op), w); };
  auto tag = Dune::refinementIntervals(n);
  std::vector<std::array<double, dim>> x;
  int i = 0;
  for (auto it = r.vBegin(tag); it != r.vEnd(tag); ++it, ++i) {
    if (it.index() != i) bad("vertex indices do not count up from 0");
    std::array<double, dim> y; auto c = it.coords(); for (int j = 0; j < dim; ++j) y[j] = raw(c[j]);
    // triangulations cut first and refine each part on its own
    if ((id & ~1u) == (co & ~1u)) for (const auto& z : x) { double d = 0; for (int j = 0; j < dim; ++j) d += std::abs(z[j] - y[j]); if (d < 1e-9) bad("two vertices coincide"); }
    if (!topo_inside(id, dim, y.data(), 1e-9)) bad("a vertex lies outside the refined element");
    x.push_back(y);
  }
  if (i != r.nVertices(tag)) bad("the number of vertices visited is not the number announced");
  i = 0; int corners = topo_size(co, dim, dim);
  double xc[16][4]; int nc = topo_corners(id, dim, xc);
  for (int k = 0; k < nc; ++k) { bool f = false; for (const auto& z : x) { double d = 0; for (int j = 0; j < dim; ++j) d += std::abs(z[j] - xc[k][j]); f = f || d < 1e-9; } if (!f) bad("a corner of the refined element is no vertex of the refinement"); }
  for (auto it = r.eBegin(tag); it != r.eEnd(tag); ++it, ++i) {
    if (it.index() != i) bad("element indices do not count up from 0");
    auto v = it.vertexIndices();
    if ((int)v.size() != corners) bad("an element has the wrong number of corners");
    double m[4] = {0, 0, 0, 0};
    for (std::size_t k = 0; k < v.size(); ++k) {
      if (v[k] < 0 || v[k] >= (int)x.size()) bad("a corner index is out of range");
      for (std::size_t l = 0; l < k; ++l) if (v[k] == v[l]) bad("an element has the same corner twice");
      for (int j = 0; j < dim; ++j) m[j] += x[v[k]][j] / v.size();
    }
    auto c = it.coords();
    for (int j = 0; j < dim; ++j) if (!close(raw(c[j]), m[j], 1e-9)) bad("an element's coordinates are not the centre of its corners");
  }
  if (i != r.nElements(tag)) bad("the number of elements visited is not the number announced");
  if (i != refine_elements(dim, id, co, n)) bad("wrong number of elements");
}

// a: 0 number type, 1 dim, 2 type, 3 type of the subelements, 4 intervals, 5 mode, 6 by level
template<class ct, int dim> void refine_op(const Op& op) {
  using namespace Dune;
  const unsigned id = (unsigned)op.a[2], co = (unsigned)op.a[3]; const int n = (int)op.a[4];
  Sig s; const VirtualRefinement<dim, ct>* r;
  {
    Active a;
    r = &buildRefinement<dim, ct>(GeometryType(id, dim), GeometryType(co, dim));
    auto tag = op.a[6] && !(n & (n - 1)) ? refinementLevels(__builtin_ctz(n)) : refinementIntervals(n);
    const bool copies = op.a[5] & 1;
    if (op.a[5] & 2) { add_elements<void>(r->eBegin(tag), r->eEnd(tag), dim, s, copies); s.add(r->nElements(tag)); }
    else { add_vertices<void>(r->vBegin(tag), r->vEnd(tag), dim, s, copies); s.add(r->nVertices(tag)); }
  }
  if (!refine_supported(dim, id, co) && cares(A_ABSOLUTE)) violate("value", "%s: there is no such refinement, but one was returned", op_text(op));
  if (refmode() && cares(A_ABSOLUTE)) check_refine<ct, dim>(*r, id, co, n, op);
  expect(op, s, 0);
  same_identity(hkey({2, op.a[0], dim, id >> 1, co >> 1}), r, op_text(op));
}
// the same without virtual functions
template<class ct, int dim, unsigned id, unsigned co> void static_refine(const Op& op) {
  using namespace Dune;
  using R = StaticRefinement<id, ct, co, dim>;
  const int n = (int)op.a[4];
  Sig s;
  {
    Active a;
    auto tag = op.a[6] && !(n & (n - 1)) ? refinementLevels(__builtin_ctz(n)) : refinementIntervals(n);
    const bool copies = op.a[5] & 1;
    if (op.a[5] & 2) {
      add_elements<void>(R::eBegin(tag), R::eEnd(tag), dim, s, copies); s.add(R::nElements(tag));
      int i = 0;
      for (auto it = R::eBegin(tag), e = R::eEnd(tag); it != e && i < 24; ++it, ++i) { auto g = it.geometry(); s.add(g.volume()); for (int k = 0; k < g.corners(); ++k) { auto c = g.corner(k); s.vec(c, dim); } }
    }
    else { add_vertices<void>(R::vBegin(tag), R::vEnd(tag), dim, s, copies); s.add(R::nVertices(tag)); }
  }
  expect(op, s, 0);
}

// ------------------------------------------------------------------ iterators as values
template<class ct, int dim, int codim> struct Cursor {
  using R = Dune::VirtualRefinement<dim, ct>;
  using It = typename R::template Codim<codim>::SubEntityIterator;
  const R* r; int n; It it;
  static It start(const R& r, int n) { if constexpr (codim == 0) return r.eBegin(Dune::refinementIntervals(n)); else return r.vBegin(Dune::refinementIntervals(n)); }
  static It stop(const R& r, int n) { if constexpr (codim == 0) return r.eEnd(Dune::refinementIntervals(n)); else return r.vEnd(Dune::refinementIntervals(n)); }
  Cursor(const R& r_, int n_, int steps) : r(&r_), n(n_), it(start(r_, n_)) { It e(stop(r_, n_)); while (steps-- && it != e) ++it; }
};
// variant: which refinement; shape: intervals and position
template<class C, class ct, int dim> struct MakeCursor {
  static void make(C* p, int id, int shape) {
    using namespace Dune;
    static const unsigned t[4][5][2] = {{}, {{0, 0}, {1, 1}}, {{0, 0}, {3, 3}, {3, 0}}, {{0, 0}, {7, 7}, {7, 0}, {5, 0}, {3, 0}}};
    ::new ((void*)p) C(buildRefinement<dim, ct>(GeometryType(t[dim][id][0], dim), GeometryType(t[dim][id][1], dim)), 1 + shape % 2, shape);
  }
};
struct CursorQuery {
  template<class C> static void query(C& c, int q, Sig& s) {
    constexpr int dim = C::It::CoordVector::dimension;
    auto e = C::stop(*c.r, c.n);
    if (q == 0) {
      s.add((bool)(c.it == e));
      if (c.it == e) return;
      s.add((int)c.it.index()); auto x = c.it.coords(); s.vec(x, dim);
      if constexpr (requires { c.it.vertexIndices(); }) { auto v = c.it.vertexIndices(); s.add((unsigned long)v.size()); for (int k : v) s.add(k); }
      return;
    }
    if (q == 1) {                                // the rest of the traversal, on a copy
      typename C::It i(c.it); int n = 0;
      for (; i != e; ++i) { s.add((int)i.index()); if (++n > 2000) break; }
      s.add(n); return;
    }
    auto b = C::start(*c.r, c.n); int n = 0;     // position counted from the start
    while (b != e && !(b == c.it) && n < 2000) { ++b; ++n; }
    s.add(n); s.add((bool)(b == c.it)); s.add((bool)(b != c.it));
  }
};
}
