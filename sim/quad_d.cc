#include "quad_ops.hh"
namespace sim {
template void quad_rule<double, 0>(const Op&);
template void quad_none<double, 0>(const Op&);
template void quad_rule<double, 1>(const Op&);
template void quad_sweep<double, 1>(const Op&);
template void quad_none<double, 1>(const Op&);
template void quad_rule<double, 2>(const Op&);
template void quad_sweep<double, 2>(const Op&);
template void quad_none<double, 2>(const Op&);
}
