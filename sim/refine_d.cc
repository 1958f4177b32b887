#include "refine.hh"
namespace sim {
template void refine_op<double, 1>(const Op&); template void refine_op<double, 2>(const Op&); template void refine_op<double, 3>(const Op&);
using VertexCursor2 = Cursor<double, 2, 2>; using M42 = MakeCursor<VertexCursor2, double, 2>; static VReg r42(42, make_vtype<VertexCursor2>("vertex iterator (2d)", V_SHARED, 3, 3, M42(), CursorQuery()));
using ElementCursor2 = Cursor<double, 2, 0>; using M43 = MakeCursor<ElementCursor2, double, 2>; static VReg r43(43, make_vtype<ElementCursor2>("element iterator (2d)", V_SHARED, 3, 3, M43(), CursorQuery()));
using VertexCursor3 = Cursor<double, 3, 3>; using M44 = MakeCursor<VertexCursor3, double, 3>; static VReg r44(44, make_vtype<VertexCursor3>("vertex iterator (3d)", V_SHARED, 3, 5, M44(), CursorQuery()));
using ElementCursor3 = Cursor<double, 3, 0>; using M45 = MakeCursor<ElementCursor3, double, 3>; static VReg r45(45, make_vtype<ElementCursor3>("element iterator (3d)", V_SHARED, 3, 5, M45(), CursorQuery()));
}
