// operations on one copy of the 128-bit word type
#include "common.hpp"
using namespace vf;
using namespace MTToolBox;
static Log *lg;
static Rng *rg;
static u128 pick() {
    Rng& g = *rg;
    switch (g.below(9)) {
    case 0: return (u128)1 << g.below(128);
    case 1: return ((u128)1 << g.below(128)) | ((u128)1 << g.below(128));
    case 2: return ((u128)1 << g.below(128)) - 1;
    case 3: return ~(((u128)1 << g.below(128)) - 1);
    case 4: return ~((u128)1 << g.below(128));
    case 5: return g.coin() ? 0 : ~(u128)0;
    case 6: return (u128)g.next() << 64;
    case 7: return g.next();
    default: return ((u128)g.next() << 64) | g.next();
    }
}
static w128_t W_(u128 v) { return wordOf<w128_t>(v); }
static void load(w128_t x) { Ev e("load"); e.word("x", x).i("w", 128); lg->put(e); }
static void ask(const char *op, long r) { Ev e("ask"); e.str("op", op).i("r", r); lg->put(e); }
static void all(w128_t x0, int s, w128_t y, int n) {
    // every operation on x0 with shift/position s, second word y, width n
    w128_t x = x0;
    load(x);
    { Ev e("chg"); x = x0 >> s; e.str("op", "shr").i("s", s).word("r", x); lg->put(e); load(x0); }
    { Ev e("chg"); x = x0 << s; e.str("op", "shl").i("s", s).word("r", x); lg->put(e); load(x0); }
    ask("onepos", calc_1pos(x0));
    ask("iszero", isZero(x0) ? 1 : 0);
    { Ev e("ask"); e.str("op", "getbit").i("s", s).i("r", getBitOfPos<w128_t>(x0, s)); lg->put(e); }
    { Ev e("ask"); e.str("op", "eq").word("y", y).i("r", x0 == y ? 1 : 0); lg->put(e); }
    { w128_t z = x0; setBitOfPos<w128_t>(&z, rg->below(128), 1); Ev e("ask"); e.str("op", "eq").word("y", z).i("r", x0 == z ? 1 : 0); lg->put(e); }
    { unsigned b = rg->below(4); x = x0; setBitOfPos<w128_t>(&x, s, b); Ev e("chg"); e.str("op", "setbit").i("s", s).i("b", b).word("r", x); lg->put(e); }
    { Ev e("chg"); x = x ^ y; e.str("op", "xor").word("y", y).word("r", x); lg->put(e); }
    { Ev e("chg"); x = x & y; e.str("op", "and").word("y", y).word("r", x); lg->put(e); }
    { Ev e("chg"); x = ~x; e.str("op", "not").word("r", x); lg->put(e); }
    { Ev e("chg"); x |= y; e.str("op", "or").word("y", y).word("r", x); lg->put(e); }
    { Ev e("chg"); x ^= x0; e.str("op", "xor").word("y", x0).word("r", x); lg->put(e); }
    { Ev e("chg"); x = reverse_bit(x); e.str("op", "rev").word("r", x); lg->put(e); }
    { Ev e("chg"); x = and_mask(x, y); e.str("op", "and").word("y", y).word("r", x); lg->put(e); }
    { w128_t m = make_msb_mask(n); Ev e("chg"); e.str("op", "mask").i("s", n).word("r", m); lg->put(e); }
    { NTL::vec_GF2 v; v.SetLength(128); std::vector<int> on; u128 yy = bitsOf(y);
      for (int j = 0; j < 128; j++) if ((yy >> j) & 1) { v.put(j, 1); on.push_back(j); }
      x = fromGF2Vec<w128_t>(v);
      Ev e("chg"); e.str("op", "vec").ints("y", on).word("r", x); lg->put(e); }
    { uint64_t v = (uint64_t)bitsOf(x0); load(W_(v)); x = convert<w128_t, uint64_t>(v); Ev e("chg"); e.str("op", "cnv").i("from", 64).word("r", x); lg->put(e); }
    { uint32_t v = (uint32_t)bitsOf(x0); load(W_(v)); x = convert<w128_t, uint32_t>(v); Ev e("chg"); e.str("op", "cnv").i("from", 32).word("r", x); lg->put(e); }
    { x = getOne<w128_t>(); Ev e("chg"); e.str("op", "one").word("r", x); lg->put(e); }
    { x = y; setZero(x); Ev e("chg"); e.str("op", "zero").word("r", x); lg->put(e); }
}
void W128_RUN(Log& log, Rng& g, bool thorough) {
    lg = &log; rg = &g;
    for (int s = 0; s < 128; s++) {
        lg->session(4);
        all(W_((u128)1 << s), s, W_(pick()), s);
        all(W_(((u128)g.next() << 64) | g.next()), s, W_(((u128)g.next() << 64) | g.next()), s + 1);
        all(W_(pick()), s, W_(pick()), g.below(129));
        if (g.coin()) all(W_(~(u128)0), s, W_(~(u128)0), s);
    }
    for (int i = 0; i < (thorough ? 8000 : 200); i++) {
        lg->session(1);
        w128_t x = W_(pick());
        all(x, g.below(128), g.below(5) ? W_(pick()) : x, g.below(129));
    }
    all(W_(0), 0, W_(0), 128);
}
