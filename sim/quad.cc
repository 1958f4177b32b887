// Dispatch of quadrature requests.
#include "ops.hh"
namespace sim {
template<class ct, int dim> void quad_rule(const Op& op);
template<class ct, int dim> void quad_none(const Op& op);
template<class ct, int dim> void quad_sweep(const Op& op);
#define ALL \
  X(0, double, 0) X(0, double, 1) X(0, double, 2) X(0, double, 3) X(0, double, 4) X(0, double, 5) \
  X(1, SimReal, 0) X(1, SimReal, 1) X(1, SimReal, 2) X(1, SimReal, 3) \
  X(2, SimBig, 0) X(2, SimBig, 1) X(2, SimBig, 2) X(2, SimBig, 3) \
  X(3, float, 0) X(3, float, 1) X(3, float, 2) X(3, float, 3) \
  X(4, long double, 0) X(4, long double, 1) X(4, long double, 2) X(4, long double, 3)
#define X(n, T, d) extern template void quad_rule<T, d>(const Op&); extern template void quad_none<T, d>(const Op&);
ALL
#undef X
static void op_rule(const Op& op) {
  switch (op.a[0] * 8 + op.a[1]) {
#define X(n, T, d) case n * 8 + d: return quad_rule<T, d>(op);
    ALL
#undef X
    default: violate("simulator", "bad rule op %s", op_text(op));
  }
}
REGISTER_OP("rule", op_rule, 5, OP_CAN_REFUSE)
#define MANY \
  X(0, double, 1) X(0, double, 2) X(1, SimReal, 1) X(1, SimReal, 2) X(2, SimBig, 1) X(2, SimBig, 2) \
  X(3, float, 1) X(3, float, 2) X(4, long double, 1) X(4, long double, 2)
#define X(n, T, d) extern template void quad_sweep<T, d>(const Op&);
MANY
#undef X
static void op_sweep(const Op& op) {
  switch (op.a[0] * 8 + op.a[1]) {
#define X(n, T, d) case n * 8 + d: return quad_sweep<T, d>(op);
    MANY
#undef X
    default: violate("simulator", "bad rule op %s", op_text(op));
  }
}
REGISTER_OP("sweep", op_sweep, 7, 0)
static void op_norule(const Op& op) {
  switch (op.a[0] * 8 + op.a[1]) {
#define X(n, T, d) case n * 8 + d: return quad_none<T, d>(op);
    ALL
#undef X
    default: violate("simulator", "bad rule op %s", op_text(op));
  }
}
REGISTER_OP("norule", op_norule, 5, OP_CAN_REFUSE)
}
