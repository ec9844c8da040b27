// The shipped generators, usable side by side.  Their main() functions are renamed.
#ifndef VERIF_SHIPPED_HPP
#define VERIF_SHIPPED_HPP
#include "common.hpp"
#include <errno.h>
#include <getopt.h>
#include <limits.h>
#include <fstream>
#include <iomanip>
#include <unistd.h>
#include <MTToolBox/AlgorithmRecursionAndTempering.hpp>
#include <MTToolBox/AlgorithmReducibleRT.hpp>
#include <MTToolBox/AlgorithmBestBits.hpp>
#include <MTToolBox/AlgorithmPartialBitPattern.hpp>
#include <MTToolBox/MersenneTwister.hpp>
#include <MTToolBox/MersenneTwister64.hpp>
#include <MTToolBox/Sequential.hpp>
#include "samples/TinyMTDC/tinymt32search.hpp"
#include "samples/RMT/rmt64.hpp"
#define main shipped_main
namespace xs2 {
#include "samples/XORSHIFT/xorshift-2.cpp"
}
namespace xs3 {
#include "samples/XORSHIFT/xorshift-3.cpp"
}
namespace xs4 {
#include "samples/XORSHIFT/xorshift-4.cpp"
}
namespace xs5 {
#include "samples/XORSHIFT/xorshift-5.cpp"
}
namespace mt1 {
#include "samples/MTDC/mt1.cpp"
}
namespace mt2 {
#include "samples/MTDC/mt2.cpp"
}
#undef main
namespace vf {
// minimal polynomial of output bit 0 of a copy, by plain NTL
template<class U> inline NTL::GF2X polyOfBit(MTToolBox::EquidistributionCalculatable<U>& g, int n, int bit = 0) {
    std::unique_ptr<MTToolBox::EquidistributionCalculatable<U> > c(g.clone());
    NTL::Vec<NTL::GF2> v; v.SetLength(2 * n);
    for (int i = 0; i < 2 * n; i++) v[i] = (long)((bitsOf(c->generate()) >> bit) & 1);
    NTL::GF2X p; NTL::MinPolySeq(p, v, n);
    return p;
}
template<class U> inline std::vector<u128> outputs(MTToolBox::EquidistributionCalculatable<U>& g, int k) {
    std::vector<u128> r;
    for (int i = 0; i < k; i++) r.push_back(bitsOf(g.generate()));
    return r;
}
template<class U> inline std::vector<u128> peek(MTToolBox::EquidistributionCalculatable<U>& g, int k) {
    std::unique_ptr<MTToolBox::EquidistributionCalculatable<U> > c(g.clone());
    return outputs(*c, k);
}
}
#endif
