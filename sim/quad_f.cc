#include "quad_ops.hh"
namespace sim {
template void quad_rule<float, 0>(const Op&);
template void quad_none<float, 0>(const Op&);
template void quad_rule<float, 1>(const Op&);
template void quad_sweep<float, 1>(const Op&);
template void quad_none<float, 1>(const Op&);
template void quad_rule<float, 2>(const Op&);
template void quad_sweep<float, 2>(const Op&);
template void quad_none<float, 2>(const Op&);
template void quad_rule<float, 3>(const Op&);
template void quad_none<float, 3>(const Op&);
}
