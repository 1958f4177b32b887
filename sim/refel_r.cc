#include "refel.hh"
namespace sim { template void refel_op<SimReal, 0>(const Op&); template void refel_op<SimReal, 1>(const Op&); template void refel_op<SimReal, 2>(const Op&); template void refel_op<SimReal, 3>(const Op&); }
