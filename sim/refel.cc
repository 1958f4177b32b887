// Dispatch of reference element lookups.
#include "ops.hh"
namespace sim {
template<class ct, int dim> void refel_op(const Op& op);
#define ALL X(0, double, 0) X(0, double, 1) X(0, double, 2) X(0, double, 3) X(0, double, 4) X(1, SimReal, 0) X(1, SimReal, 1) X(1, SimReal, 2) X(1, SimReal, 3) X(2, SimMp, 0) X(2, SimMp, 1) X(2, SimMp, 2) X(3, float, 0) X(3, float, 1) X(3, float, 2) X(3, float, 3)
#define X(n, T, d) extern template void refel_op<T, d>(const Op&);
ALL
#undef X
static void op_refel(const Op& op) {
  switch (op.a[0] * 8 + op.a[1]) {
#define X(n, T, d) case n * 8 + d: return refel_op<T, d>(op);
    ALL
#undef X
    default: violate("simulator", "bad reference element op %s", op_text(op));
  }
}
REGISTER_OP("refel", op_refel, 4, 0)
}
