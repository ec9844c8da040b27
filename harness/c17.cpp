// C17: sequential parameter sources, replaying behaviours generated from the specification.
#include "common.hpp"
#include <map>
#include <new>
#include <MTToolBox/Sequential.hpp>
using namespace vf;
using namespace MTToolBox;
static Log *lg;
// one source of either width, kept in memory that was not zero before
struct Obj {
    int w;
    alignas(16) unsigned char mem[128];
    Sequential<uint32_t> *s32;
    Sequential<uint64_t> *s64;
    Obj() : w(0), s32(0), s64(0) { memset(mem, 0xA5, sizeof(mem)); }
    ~Obj() { clear(); }
    void clear() {
        if (s32) s32->~Sequential<uint32_t>();
        if (s64) s64->~Sequential<uint64_t>();
        s32 = 0; s64 = 0; memset(mem, 0xA5, sizeof(mem));
    }
};
template<class F> static void read(Obj& o, int id, int port, F f) {
    Ev e("read");
    e.i("id", id).i("port", port);
    try { u128 r = f(); e.b("ok", true).bits("r", r); }
    catch (std::underflow_error&) { e.b("ok", false); }
    lg->put(e);
}
static uint64_t numberFor(Rng& g, int b, int w) {
    switch (b) {
    case 0: return 0;
    case 1: return g.below(3);
    case 2: return g.in(2, 9);
    default: { uint64_t v = g.next(); if (w == 32) v &= 0xffffffffu;
               if (g.coin()) v = (UINT64_C(1) << g.in(20, w - 1)) + g.below(3); return v; }
    }
}
static void create(Rng& g, Obj& o, int id, int form, int wide) {
    o.clear();
    o.w = wide ? 64 : 32;
    uint64_t mask = form == 0 ? 0 : g.next();
    if (!wide) mask &= 0xffffffffu;
    if (form && g.below(4) == 0) mask = g.coin() ? 0 : (wide ? ~UINT64_C(0) : 0xffffffffu);
    uint64_t start = numberFor(g, g.below(4), o.w);
    if (wide) {
        if (form == 0) o.s64 = new (o.mem) Sequential<uint64_t>();
        else if (form == 1) o.s64 = new (o.mem) Sequential<uint64_t>(mask);
        else o.s64 = new (o.mem) Sequential<uint64_t>(mask, start);
    } else {
        if (form == 0) o.s32 = new (o.mem) Sequential<uint32_t>();
        else if (form == 1) o.s32 = new (o.mem) Sequential<uint32_t>((uint32_t)mask);
        else o.s32 = new (o.mem) Sequential<uint32_t>((uint32_t)mask, (uint32_t)start);
    }
    Ev e("new");
    e.i("id", id).i("w", o.w).i("bits", wide ? o.s64->bitSize() : o.s32->bitSize()).bits("mask", mask)
     .b("seeded", form == 2).bits("start", form == 2 ? start : 0);
    lg->put(e);
}
static void reseed(Rng& g, Obj& o, int id, int how, int b) {
    uint64_t v = numberFor(g, b, o.w);
    if (how == 0) v &= 0xffffffffu;
    if (how == 0) { if (o.s64) o.s64->seed((uint32_t)v); else o.s32->seed((uint32_t)v); }
    else if (how == 1) { if (o.s64) o.s64->seed(v); else o.s32->seed((uint64_t)v); }
    else { if (o.s64) o.s64->reseed(v); else o.s32->reseed((uint32_t)v); }
    Ev e("seed"); e.i("id", id).bits("v", v); lg->put(e);
}
static void readOne(Obj& o, int id, int port) {
    ParameterGenerator *p = o.s64 ? (ParameterGenerator *)o.s64 : (ParameterGenerator *)o.s32;
    if (port == 0) read(o, id, 32, [&]() { return (u128)p->getUint32(); });
    else if (port == 1) read(o, id, 64, [&]() { return (u128)p->getUint64(); });
    else read(o, id, o.w, [&]() { return o.s64 ? (u128)o.s64->next() : (u128)o.s32->next(); });
}
int main(int argc, char **argv)
{
    Args a(argc, argv);
    Log log(a.dir, a.files);
    Rng g(a.seed);
    lg = &log;
    std::vector<Beh> bs = behaviours(a.script);
    for (size_t k = 0; k < bs.size(); k++) {
        log.session(bs[k].size());
        Ev r("reset"); log.put(r);
        std::map<int, Obj> objs;
        for (size_t i = 0; i < bs[k].size(); i++) {
            const Op& o = bs[k][i];
            Obj& t = objs[o[1]];
            switch (o[0]) {
            case 1: create(g, t, o[1], o[2], o[3]); break;
            case 2: {
                Obj& f = objs[o[2]];
                t.clear(); t.w = f.w;
                if (f.s64) t.s64 = new (t.mem) Sequential<uint64_t>(*f.s64);
                else t.s32 = new (t.mem) Sequential<uint32_t>(*f.s32);
                Ev e("copy"); e.i("id", o[1]).i("from", o[2]); log.put(e);
                break; }
            case 3: reseed(g, t, o[1], o[2], o[3]); break;
            case 4: readOne(t, o[1], o[2]); break;
            }
        }
    }
    // long runs down to the end and beyond
    for (int k = 0; k < (a.thorough ? 40 : 12); k++) {
        log.session(400);
        Ev r("reset"); log.put(r);
        Obj o; create(g, o, 1, 1 + k % 2, (k / 2) % 2);
        int n = g.in(10, a.thorough ? 2000 : 300);
        if (o.s64) o.s64->reseed(n); else o.s32->reseed(n);
        Ev e("seed"); e.i("id", 1).bits("v", n); log.put(e);
        for (int i = 0; i < n + 4; i++) readOne(o, 1, g.below(3));
        reseed(g, o, 1, g.below(3), 1);
        for (int i = 0; i < 6; i++) readOne(o, 1, g.below(3));
    }
    return 0;
}
