#include "refel.hh"
namespace sim { template void refel_op<double, 0>(const Op&); template void refel_op<double, 1>(const Op&); template void refel_op<double, 2>(const Op&); template void refel_op<double, 3>(const Op&); }
