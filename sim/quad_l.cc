#include "quad_ops.hh"
namespace sim {
template void quad_rule<long double, 0>(const Op&);
template void quad_none<long double, 0>(const Op&);
template void quad_rule<long double, 1>(const Op&);
template void quad_sweep<long double, 1>(const Op&);
template void quad_none<long double, 1>(const Op&);
template void quad_rule<long double, 2>(const Op&);
template void quad_sweep<long double, 2>(const Op&);
template void quad_none<long double, 2>(const Op&);
template void quad_rule<long double, 3>(const Op&);
template void quad_none<long double, 3>(const Op&);
}
