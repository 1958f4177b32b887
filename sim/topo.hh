// Own description of the reference elements, independent of the library: the
// topology id lists, from the lowest bit, prism (1) or cone (0) constructions.
#ifndef VERIF_TOPO_HH
#define VERIF_TOPO_HH
namespace sim {
inline unsigned topo_base(unsigned id, int dim) { return id & ((1u << (dim - 1)) - 1); }
inline bool topo_prism(unsigned id, int dim) { return dim == 1 || ((id >> (dim - 1)) & 1); }
// number of subentities
inline int topo_size(unsigned id, int dim, int codim) {
  if (codim == 0) return 1;
  if (codim > dim) return 0;
  unsigned b = topo_base(id, dim);
  if (topo_prism(id, dim)) return (codim < dim ? topo_size(b, dim - 1, codim) : 0) + 2 * topo_size(b, dim - 1, codim - 1);
  return topo_size(b, dim - 1, codim - 1) + (codim == dim ? 1 : topo_size(b, dim - 1, codim));
}
inline double topo_volume(unsigned id, int dim) { return dim == 0 ? 1 : topo_volume(topo_base(id, dim), dim - 1) / (topo_prism(id, dim) ? 1 : dim); }
// corners, at most 16 in four dimensions
inline int topo_corners(unsigned id, int dim, double (*c)[4]) {
  if (dim == 0) { for (int k = 0; k < 4; ++k) c[0][k] = 0; return 1; }
  int n = topo_corners(topo_base(id, dim), dim - 1, c);
  if (topo_prism(id, dim)) {
    for (int i = 0; i < n; ++i) { for (int k = 0; k < 4; ++k) c[n + i][k] = c[i][k]; c[n + i][dim - 1] = 1; }
    return 2 * n;
  }
  for (int k = 0; k < 4; ++k) c[n][k] = 0;
  c[n][dim - 1] = 1;
  return n + 1;
}
inline bool topo_inside(unsigned id, int dim, const double* x, double tol, double scale = 1) {
  if (dim == 0) return true;
  double z = x[dim - 1];
  if (z < -tol || z > scale + tol) return false;
  return topo_inside(topo_base(id, dim), dim - 1, x, tol, topo_prism(id, dim) ? scale : scale - z);
}
// the same element as a geometry type
inline bool topo_same(unsigned a, unsigned b, int dim) { return dim == 0 || (a | 1) == (b | 1); }
}
#endif
