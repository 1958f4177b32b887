#include "quad_ops.hh"
namespace sim {
template void quad_rule<SimReal, 0>(const Op&);
template void quad_none<SimReal, 0>(const Op&);
template void quad_rule<SimReal, 1>(const Op&);
template void quad_sweep<SimReal, 1>(const Op&);
template void quad_none<SimReal, 1>(const Op&);
template void quad_rule<SimReal, 2>(const Op&);
template void quad_sweep<SimReal, 2>(const Op&);
template void quad_none<SimReal, 2>(const Op&);
template void quad_rule<SimReal, 3>(const Op&);
template void quad_none<SimReal, 3>(const Op&);
}
