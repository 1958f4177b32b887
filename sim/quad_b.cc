#include "quad_ops.hh"
namespace sim {
template void quad_rule<SimBig, 0>(const Op&);
template void quad_none<SimBig, 0>(const Op&);
template void quad_rule<SimBig, 1>(const Op&);
template void quad_sweep<SimBig, 1>(const Op&);
template void quad_none<SimBig, 1>(const Op&);
template void quad_rule<SimBig, 2>(const Op&);
template void quad_sweep<SimBig, 2>(const Op&);
template void quad_none<SimBig, 2>(const Op&);
template void quad_rule<SimBig, 3>(const Op&);
template void quad_none<SimBig, 3>(const Op&);
}
