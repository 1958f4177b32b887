#include "refel.hh"
namespace sim { template void refel_op<double, 4>(const Op&); }
