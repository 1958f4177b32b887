#include "quad_ops.hh"
namespace sim {
template void quad_rule<double, 3>(const Op&);
template void quad_none<double, 3>(const Op&);
template void quad_rule<double, 4>(const Op&);
template void quad_none<double, 4>(const Op&);
}
