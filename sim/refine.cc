// Dispatch of refinement traversals.
#include "refine.hh"
namespace sim {
#define ALL X(0, double, 1) X(0, double, 2) X(0, double, 3) X(1, SimReal, 1) X(1, SimReal, 2) X(1, SimReal, 3)
#define X(n, T, d) extern template void refine_op<T, d>(const Op&);
ALL
#undef X
static void op_refine(const Op& op) {
  try {
    switch (op.a[0] * 8 + op.a[1]) {
#define X(n, T, d) case n * 8 + d: return refine_op<T, d>(op);
      ALL
#undef X
      default: violate("simulator", "bad refinement op %s", op_text(op));
    }
  } catch (const NumError&) {
    throw;
  } catch (const Dune::NotImplemented&) {
    if (cares(A_ABSOLUTE) && refine_supported((int)op.a[1], (unsigned)op.a[2], (unsigned)op.a[3])) violate("refused", "%s is refused", op_text(op));
    throw;
  }
}
REGISTER_OP("refine", op_refine, 6, OP_CAN_REFUSE)

// a: 1 dim, 2 which, 4 intervals, 5 mode, 6 by level
static void op_srefine(const Op& op) {
  if (op.a[1] == 1) return static_refine<double, 1, 0, 0>(op);
  if (op.a[1] == 2) switch (op.a[2]) { case 0: return static_refine<double, 2, 0, 0>(op); case 1: return static_refine<double, 2, 3, 3>(op); default: return static_refine<double, 2, 3, 0>(op); }
  switch (op.a[2]) {
    case 0: return static_refine<double, 3, 0, 0>(op); case 1: return static_refine<double, 3, 7, 7>(op); case 2: return static_refine<double, 3, 7, 0>(op);
    case 3: return static_refine<double, 3, 5, 0>(op); default: return static_refine<double, 3, 3, 0>(op);
  }
}
REGISTER_OP("srefine", op_srefine, 6, 0)
}
