// C03: factor tables and the Mersenne exponent query.
#include "common.hpp"
#include <ctype.h>
#include <MTToolBox/AlgorithmPrimitivity.hpp>
using namespace vf;
using namespace MTToolBox;
struct T { int n; const char **t; };
int main(int argc, char **argv)
{
    Args a(argc, argv);
    Log log(a.dir, a.files);
    Rng g(a.seed);
#define TT(n) {n, prime_factors2_##n##_1}
    T tab[] = {TT(960), TT(800), TT(640), TT(544), TT(512), TT(480), TT(448), TT(416), TT(384), TT(352),
               TT(320), TT(288), TT(256), TT(224), TT(192), TT(160), TT(128)};
    for (size_t k = 0; k < sizeof(tab) / sizeof(tab[0]); k++) {
        double w = 0;
        for (int j = 0; tab[k].t[j]; j++) { double s = strlen(tab[k].t[j]); w += s * s * s; }
        log.session(w);
        Ev b("table"); b.i("N", tab[k].n); log.put(b);
        for (int j = 0; tab[k].t[j]; j++) {
            std::string s = tab[k].t[j];
            bool ok = s.size() > 0;
            for (size_t i = 0; i < s.size(); i++) if (!isdigit((unsigned char)s[i])) ok = false;
            std::vector<int> limbs;
            if (ok) {
                size_t z = 0; while (z + 1 < s.size() && s[z] == '0') z++;
                s = s.substr(z);
                for (int e = (int)s.size(); e > 0; e -= 3) limbs.push_back(atoi(s.substr(e >= 3 ? e - 3 : 0, e >= 3 ? 3 : e).c_str()));
            }
            Ev e("prime"); e.i("N", tab[k].n).b("digits", ok).ints("p", limbs); log.put(e);
        }
        Ev d("done"); d.i("N", tab[k].n); log.put(d);
    }
    // the whole range of exponents
    log.session(1);
    const uint32_t top = 25964951;
    uint32_t step = 1000000;
    for (uint32_t lo = 0; lo <= top; lo += step) {
        uint32_t hi = lo + step - 1 > top ? top : lo + step - 1;
        std::vector<long> yes;
        for (uint32_t x = lo; x <= hi; x++) if (isMexp(x)) yes.push_back(x);
        Ev e("mexp"); e.i("lo", lo).i("hi", hi).ints("yes", yes); log.put(e);
    }
    std::vector<long> yes;
    uint32_t n = a.thorough ? 400000000u : 20000000u;
    for (uint32_t i = 0; i < n; i++) {
        uint32_t x = (uint32_t)g.next();
        if (x > top && x < 0x7fffffffu && isMexp(x)) yes.push_back(x);
    }
    uint32_t later[] = {30402457, 32582657, 37156667, 42643801, 43112609, 57885161, 74207281, 77232917, 82589933, 136279841};
    for (int i = 0; i < 10; i++) for (int d = -3; d <= 3; d++) if (isMexp(later[i] + d)) yes.push_back(later[i] + d);
    Ev e("later"); e.ints("yes", yes); log.put(e);
    return 0;
}
