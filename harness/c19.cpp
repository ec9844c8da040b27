// C19: 128-bit words, both copies.
#define w128_t w128_sfmt_t
#include "samples/sfmtdc/w128.hpp"
#define W128_RUN run_sfmt
#include "w128_ops.inc"
void run_dsfmt(Log& log, Rng& g, bool thorough);
int main(int argc, char **argv)
{
    Args a(argc, argv);
    Log log(a.dir, a.files);
    Rng g(a.seed);
    run_sfmt(log, g, a.thorough);
    run_dsfmt(log, g, a.thorough);
    return 0;
}
