// C18: bit and word helpers.
#include "common.hpp"
#include <MTToolBox/util.hpp>
using namespace vf;
using namespace NTL;
static Log *lg;
static Rng *rg;

template<class U> static U pickWord() {
    Rng& g = *rg;
    int w = width<U>();
    u128 v = 0;
    switch (g.below(9)) {
    case 0: v = (u128)1 << g.below(w); break;
    case 1: v = ((u128)1 << g.below(w)) | ((u128)1 << g.below(w)); break;
    case 2: v = ((u128)1 << g.below(w)) - 1; break;
    case 3: v = ~(((u128)1 << g.below(w)) - 1); break;
    case 4: v = ~((u128)1 << g.below(w)); break;
    case 5: v = g.coin() ? 0 : ~(u128)0; break;
    case 6: { int a = g.below(w), b = g.below(w); if (a > b) std::swap(a, b); v = ((((u128)1 << (b - a)) * 2 - 1) << a); break; }
    default: v = ((u128)g.next() << 64) | g.next();
    }
    return (U)v;
}
template<class U> static Ev chg(const char *op) { Ev e("chg"); e.str("op", op); return e; }
template<class U> static void load(U x) { Ev e("load"); e.word("x", x).i("w", width<U>()); lg->put(e); }
template<class U> static void rlog(Ev& e, U r) { e.word("r", r); lg->put(e); }
static void ask(const char *op, long r) { Ev e("ask"); e.str("op", op).i("r", r); lg->put(e); }

template<class U> struct Rev { static bool has() { return true; } static U f(U x) { return MTToolBox::reverse_bit(x); } };
template<> struct Rev<uint16_t> { static bool has() { return false; } static uint16_t f(uint16_t x) { return x; } };

template<class U> static void walk(int steps) {
    Rng& g = *rg;
    const int w = width<U>();
    U x = pickWord<U>();
    lg->session(steps);
    load(x);
    for (int i = 0; i < steps; i++) {
        if (g.below(3) == 0) { x = pickWord<U>(); load(x); }
        int p = g.below(w);
        switch (g.below(13)) {
        case 0: ask("count", MTToolBox::count_bit(x)); break;
        case 1: ask("onepos", MTToolBox::calc_1pos(x)); break;
        case 2: if (Rev<U>::has()) { x = Rev<U>::f(x); Ev e("chg"); e.str("op", "rev"); rlog(e, x); } break;
        case 3: if (x != 0) { x = MTToolBox::floor2p<U>(x); Ev e("chg"); e.str("op", "floor2p"); rlog(e, x); } break;
        case 4: { Ev e("ask"); e.str("op", "getbit").i("s", p).i("r", MTToolBox::getBitOfPos<U>(x, p)); lg->put(e); break; }
        case 5: case 6: { unsigned b = g.below(4); MTToolBox::setBitOfPos<U>(&x, p, b);
                  Ev e("chg"); e.str("op", "setbit").i("s", p).i("b", b); rlog(e, x); break; }
        case 7: case 8: { vec_GF2 v; MTToolBox::toGF2Vec<U>(v, x);
                  std::vector<int> on; for (long j = 0; j < v.length(); j++) if (IsOne(v[j])) on.push_back(j);
                  Ev e("tovec"); e.i("len", v.length()).ints("r", on); lg->put(e); break; }
        case 9: case 10: { vec_GF2 v; v.SetLength(w); U y = pickWord<U>();
                  std::vector<int> on; for (int j = 0; j < w; j++) if ((y >> j) & 1) { v.put(j, 1); on.push_back(j); }
                  x = MTToolBox::fromGF2Vec<U>(v);
                  Ev e("chg"); e.str("op", "vec").ints("y", on); rlog(e, x); break; }
        case 11: { int a = g.in(-50, 1000), b = a + (g.coin() ? g.below(40) : g.below(1 << 28));
                  Ev e("ask"); e.str("op", "range").i("a", a).i("b", b).i("r", MTToolBox::get_range<U>(x, a, b)); lg->put(e); break; }
        case 12: switch (g.below(4)) {
                  case 0: { ask("iszero", MTToolBox::isZero<U>(x)); break; }
                  case 1: { MTToolBox::setZero<U>(x); Ev e("chg"); e.str("op", "zero"); rlog(e, x); break; }
                  case 2: { x = MTToolBox::getOne<U>(); Ev e("chg"); e.str("op", "one"); rlog(e, x); break; }
                  case 3: { uint32_t y = pickWord<uint32_t>(); 
                            if (w >= 32) { x = (U)y; load(x); x = MTToolBox::convert<U, uint32_t>(y);
                            Ev e("chg"); e.str("op", "cnv").i("from", 32); rlog(e, x); } break; }
                 } break;
        }
    }
}
// every position and the words around it
template<class U> static void sweep() {
    const int w = width<U>();
    for (int p = 0; p < w; p++) {
        lg->session(12);
        U c[] = {(U)((U)1 << p), (U)~((U)1 << p), (U)(((U)1 << p) - 1), (U)~(((U)1 << p) - 1), (U)pickWord<U>()};
        for (int k = 0; k < 5; k++) {
            U x = c[k];
            load(x);
            ask("count", MTToolBox::count_bit(x));
            ask("onepos", MTToolBox::calc_1pos(x));
            { Ev e("ask"); e.str("op", "getbit").i("s", p).i("r", MTToolBox::getBitOfPos<U>(x, p)); lg->put(e); }
            if (x != 0 && k != 1) { Ev e("chg"); e.str("op", "floor2p"); rlog(e, MTToolBox::floor2p<U>(x)); load(x); }
            for (unsigned b = 0; b < 2; b++) { U y = x; MTToolBox::setBitOfPos<U>(&y, p, b);
                Ev e("chg"); e.str("op", "setbit").i("s", p).i("b", b); rlog(e, y); load(x); }
            if (Rev<U>::has()) { Ev e("chg"); e.str("op", "rev"); rlog(e, Rev<U>::f(x)); }
        }
    }
}
template<class U> static void tables(int n) {
    for (int i = 0; i < n; i++) {
        int k = rg->in(1, 6), size = i % 3 == 0 ? rg->in(1, 1 << k) : 1 << k;
        std::vector<U> src(k), dist(size, 0);
        for (int j = 0; j < k; j++) src[j] = pickWord<U>();
        MTToolBox::fill_table<U>(&dist[0], &src[0], size);
        std::vector<u128> s, d;
        for (int j = 0; j < k; j++) s.push_back(src[j]);
        for (int j = 0; j < size; j++) d.push_back(dist[j]);
        lg->session(size);
        Ev e("fill"); e.words("src", s).words("r", d); lg->put(e);
    }
}
static void print(const GF2X& p0, bool brk, bool dflt) {
    std::ostringstream s;
    GF2X p = p0;
    if (dflt) MTToolBox::print_binary(s, p); else MTToolBox::print_binary(s, p, brk);
    std::string t = s.str();
    std::vector<int> c(t.begin(), t.end());
    lg->session(1);
    Ev e("print"); e.poly("x", p0).b("brk", brk).ints("r", c); lg->put(e);
}

int main(int argc, char **argv)
{
    Args a(argc, argv);
    Log log(a.dir, a.files);
    Rng g(a.seed);
    lg = &log; rg = &g;
    int k = a.thorough ? 20 : 3;
    lg->session(3000);
    { std::vector<int> r; for (int i = 0; i < 65536; i++) r.push_back(MTToolBox::count_bit((uint16_t)i)); Ev e("all16"); e.str("op", "count").ints("r", r); lg->put(e); }
    lg->session(3000);
    { std::vector<int> r; for (int i = 0; i < 65536; i++) r.push_back(MTToolBox::calc_1pos((uint16_t)i)); Ev e("all16"); e.str("op", "onepos").ints("r", r); lg->put(e); }
    sweep<uint16_t>(); sweep<uint32_t>(); sweep<uint64_t>();
    for (int i = 0; i < 10 * k; i++) { walk<uint32_t>(120); walk<uint64_t>(120); walk<uint16_t>(60); }
    tables<uint32_t>(8 * k); tables<uint64_t>(8 * k);
    for (int i = 0; i < 40 * k; i++) {
        GF2X x = i == 0 ? GF2X() : randPoly(g, g.in(0, 40)), y = randPoly(g, g.in(0, 40)), c = randPoly(g, g.in(0, 8)), r;
        if (i % 2) { x *= c; y *= c; }
        if (i % 7 == 3) y = x;
        if (i % 7 == 5) { GF2X z = x * y; x = z; }
        if (i % 11 == 4) SetCoeff(x, g.in(50, 90));
        MTToolBox::LCM(r, x, y);
        lg->session(1);
        Ev e("lcm"); e.poly("x", x).poly("y", y).poly("r", r); lg->put(e);
        GF2X al = x; MTToolBox::LCM(al, al, y);          // result object may be an operand
        Ev e2("lcm"); e2.poly("x", x).poly("y", y).poly("r", al); lg->put(e2);
    }
    print(GF2X(), true, true); print(GF2X(), false, false);
    int ds[] = {0, 1, 2, 15, 30, 31, 32, 33, 62, 63, 64, 65, 95, 96, 100, 127, 128};
    for (size_t i = 0; i < sizeof(ds) / sizeof(ds[0]); i++) {
        GF2X p = randPoly(g, ds[i]);
        print(p, true, true); print(p, true, false); print(p, false, false);
    }
    return 0;
}
