// C24: the xorshift128 library, replaying sessions generated from the specification.
#include "common.hpp"
#include "samples/XORSHIFT/xorshift128.h"
using namespace vf;
static Log *lg;
// keys whose mixing ends in the zero state (found by solving the mixing backwards)
static const std::vector<std::vector<uint32_t> > zeroKeys = {
#include "zerokeys.inc"
};
static void shown(Ev& e, const xorshift128_t& x) { e.bytesList("s", {x.x, x.y, x.z, x.w}, 4); }
int main(int argc, char **argv)
{
    Args a(argc, argv);
    Log log(a.dir, a.files);
    lg = &log;
    Rng g(a.seed);
    std::vector<Beh> bs = behaviours(a.script);
    auto value = [&](int cls) -> uint32_t {
        switch (cls) {
        case 0: return g.below(10);
        case 1: return 0xffffffffu - g.below(3);
        case 2: return UINT32_C(1) << g.below(32);
        default: return (uint32_t)g.next();
        }
    };
    size_t zk = 0;
    auto array = [&](int id, xorshift128_t *x, const std::vector<uint32_t>& keys) {
        xorshift128_init_by_array(x, keys.data(), (int)keys.size());
        std::vector<u128> rec(keys.begin(), keys.end());
        Ev e("array"); e.i("id", id).bytesList("keys", rec, 4); shown(e, *x); lg->put(e);
    };
    auto gen = [&](int id, xorshift128_t *x, int n) {
        while (n--) { uint32_t w = xorshift128_generate(x); Ev e("gen"); e.i("id", id).bytes("w", w, 4); lg->put(e); }
    };
    for (size_t k = 0; k < bs.size(); k++) {
        lg->session(1);
        { Ev e("reset"); lg->put(e); }
        xorshift128_t x[3];
        memset(x, (int)(k * 37), sizeof x);          // whatever was there before
        for (size_t i = 0; i < bs[k].size(); i++) {
            int id = bs[k][i][1], c = bs[k][i][2], d = bs[k][i][3];
            xorshift128_t *p = &x[id - 1];
            switch (bs[k][i][0]) {
            case 1: {
                uint32_t v = value(c);
                xorshift128_init(p, v);
                Ev e("seed"); e.i("id", id).bytes("v", v, 4); shown(e, *p); lg->put(e); break; }
            case 2: {
                int lens[] = {0, g.in(1, 3), g.in(4, 8), g.in(9, 40), g.in(1, 12)};
                std::vector<uint32_t> keys(lens[c]);
                for (size_t j = 0; j < keys.size(); j++) keys[j] = value(d);
                if (c == 4 && !zeroKeys.empty()) keys = zeroKeys[zk++ % zeroKeys.size()];
                array(id, p, keys); break; }
            case 3: gen(id, p, c); break;
            default: { Ev e("state"); e.i("id", id); shown(e, *p); lg->put(e); }
            }
        }
    }
    lg->session(1);
    { Ev e("reset"); lg->put(e); }
    xorshift128_t x;
    for (size_t i = 0; i < zeroKeys.size(); i++) { array(1, &x, zeroKeys[i]); gen(1, &x, 4); }
    for (int v = 0; v < 300; v++) { xorshift128_init(&x, (uint32_t)v); Ev e("seed"); e.i("id", 1).bytes("v", (u128)v, 4); shown(e, x); lg->put(e); }
    return 0;
}
