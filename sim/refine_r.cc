#include "refine.hh"
namespace sim {
template void refine_op<SimReal, 1>(const Op&); template void refine_op<SimReal, 2>(const Op&); template void refine_op<SimReal, 3>(const Op&);
using ElementCursorR = Cursor<SimReal, 2, 0>; using M46 = MakeCursor<ElementCursorR, SimReal, 2>; static VReg r46(46, make_vtype<ElementCursorR>("element iterator (2d, number type)", V_SHARED, 3, 3, M46(), CursorQuery()));
using VertexCursor1 = Cursor<double, 1, 1>; using M47 = MakeCursor<VertexCursor1, double, 1>; static VReg r47(47, make_vtype<VertexCursor1>("vertex iterator (1d)", V_SHARED, 3, 2, M47(), CursorQuery()));
}
