#include "refel.hh"
namespace sim { template void refel_op<float, 0>(const Op&); template void refel_op<float, 1>(const Op&); template void refel_op<float, 2>(const Op&); template void refel_op<float, 3>(const Op&); }
