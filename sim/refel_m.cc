#include "refel.hh"
namespace sim { template void refel_op<SimMp, 0>(const Op&); template void refel_op<SimMp, 1>(const Op&); template void refel_op<SimMp, 2>(const Op&); }
