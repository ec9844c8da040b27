#define w128_t w128_dsfmt_t
#include "samples/dSFMTdc/w128.hpp"
#define W128_RUN run_dsfmt
#include "w128_ops.inc"
