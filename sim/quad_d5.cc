#include "quad_ops.hh"
namespace sim {
template void quad_rule<double, 5>(const Op&);
template void quad_none<double, 5>(const Op&);
}
