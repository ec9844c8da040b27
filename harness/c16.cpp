// C16: Mersenne Twister sources, replaying sessions generated from the specification.
#include "common.hpp"
#include <map>
#include <MTToolBox/MersenneTwister.hpp>
#include <MTToolBox/MersenneTwister64.hpp>
using namespace vf;
using namespace MTToolBox;
struct Obj {
    bool wide;
    std::unique_ptr<MersenneTwister> a;
    std::unique_ptr<MersenneTwister64> b;
    Obj() : wide(false) {}
    ParameterGenerator *p() { return wide ? (ParameterGenerator *)b.get() : (ParameterGenerator *)a.get(); }
};
static Log *lg;
static const char *kind(const Obj& o) { return o.wide ? "mt64" : "mt32"; }
static std::string text(Rng& g, int n) {
    std::string s;
    for (int i = 0; i < n; i++) s += (char)g.in(32, 126);
    return s;
}
static int keyLen(Rng& g, int cls, bool wide) {
    int n = wide ? 312 : 624;
    switch (cls) {
    case 0: return g.in(1, 6);
    case 1: { int c[] = {n - 1, n, n + 1, n / 2, n - 2}; return c[g.below(5)]; }
    default: return g.in(1, 2) == 1 ? g.in(7, n) : g.in(n, 2 * n + 40);
    }
}
static uint64_t seedValue(Rng& g) {
    switch (g.below(6)) {
    case 0: return g.below(3);
    case 1: return 0xffffffffu;
    case 2: return 5489;
    case 3: return g.next();
    case 4: return ~UINT64_C(0) - g.below(2);
    default: return (uint32_t)g.next();
    }
}
static void doSeed(Rng& g, Obj& o, int id, int form, int cls, bool construct) {
    if (form == 0) {
        uint64_t v = seedValue(g);
        if (construct) { if (!o.wide) v = (uint32_t)v; 
            if (o.wide) o.b.reset(new MersenneTwister64(v)); else o.a.reset(new MersenneTwister((uint32_t)v)); }
        else if (g.coin()) o.p()->seed(v);
        else { if (o.wide) o.b->seed(v); else o.a->seed(v); }
        Ev e("seed"); e.i("id", id).str("kind", kind(o)).bytes("v", v, 8); lg->put(e);
    } else if (form == 1) {
        std::string s = text(g, keyLen(g, cls, o.wide));
        if (construct) { if (o.wide) o.b.reset(new MersenneTwister64(s)); else o.a.reset(new MersenneTwister(s)); }
        else { if (o.wide) o.b->seed(s); else o.a->seed(s); }
        std::vector<int> c(s.begin(), s.end());
        Ev e("text"); e.i("id", id).str("kind", kind(o)).ints("codes", c); lg->put(e);
    } else {
        int n = keyLen(g, cls, o.wide);
        std::vector<u128> rec;
        if (o.wide) {
            std::vector<uint64_t> k(n);
            for (int i = 0; i < n; i++) { k[i] = g.below(4) ? g.next() : seedValue(g); rec.push_back(k[i]); }
            if (construct) o.b.reset(new MersenneTwister64(&k[0], n)); else o.b->seed(&k[0], n);
        } else {
            std::vector<uint32_t> k(n);
            for (int i = 0; i < n; i++) { k[i] = (uint32_t)(g.below(4) ? g.next() : seedValue(g)); rec.push_back(k[i]); }
            if (construct) o.a.reset(new MersenneTwister(&k[0], n)); else o.a->seed(&k[0], n);
        }
        Ev e("array"); e.i("id", id).str("kind", kind(o)).bytesList("keys", rec, o.wide ? 8 : 4); lg->put(e);
    }
}
static void reads(Rng& g, Obj& o, int id, int port, int cls) {
    int n = o.wide ? 312 : 624;
    int k;
    switch (cls) {
    case 0: k = 1; break;
    case 1: k = n - 1 + g.below(3); break;
    case 2: k = g.in(100, 500); break;
    case 3: k = o.wide ? g.in(300, 700) : g.in(500, 1200); break;
    default: k = g.in(1, 20);
    }
    std::vector<u128> r;
    for (int i = 0; i < k; i++) r.push_back(port ? o.p()->getUint64() : o.p()->getUint32());
    Ev e("read"); e.i("id", id).i("port", port ? 64 : 32).bytesList("r", r, port ? 8 : 4); lg->put(e);
}
int main(int argc, char **argv)
{
    Args a(argc, argv);
    Log log(a.dir, a.files);
    Rng g(a.seed);
    lg = &log;
    std::vector<Beh> bs = behaviours(a.script);
    for (size_t k = 0; k < bs.size(); k++) {
        log.session(1);
        Ev r("reset"); log.put(r);
        std::map<int, Obj> objs;
        for (size_t i = 0; i < bs[k].size(); i++) {
            const Op& o = bs[k][i];
            if (o[0] == 0) continue;
            Obj& t = objs[o[1]];
            if (o[0] == 1) {
                t.wide = o[2] == 1;
                if (o[3] == 0) {
                    if (t.wide) t.b.reset(new MersenneTwister64()); else t.a.reset(new MersenneTwister());
                    Ev e("new"); e.i("id", o[1]).str("kind", kind(t)); log.put(e);
                } else doSeed(g, t, o[1], o[3] - 1, g.below(3), true);
            } else if (o[0] == 2) doSeed(g, t, o[1], o[2], o[3], false);
            else reads(g, t, o[1], o[2], o[3]);
        }
    }
    // long streams
    for (int w = 0; w < 2; w++) {
        log.session(3);
        Ev r("reset"); log.put(r);
        Obj o; o.wide = w;
        doSeed(g, o, 1, 0, 0, true);
        for (int i = 0; i < (a.thorough ? 12 : 3); i++) reads(g, o, 1, i % 2, 3);
    }
    return 0;
}
