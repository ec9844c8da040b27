// C25: the search programs run as processes, and what they print examined.
// PROG: 1 tinymt32dc, 2 mt2, 3 rmt64dc, 4 sfmtdc, 5 dSFMTdc, 6 MTGP32dc, 7 xorshift-1..5
#include "common.hpp"
#include <getopt.h>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <signal.h>
#include <time.h>
#include <errno.h>
#include <limits.h>
#include <stdexcept>
#include <iomanip>
#include <inttypes.h>
#include <fcntl.h>
#if PROG == 1
#define main prog_main
#include "samples/TinyMTDC/tinymt32dc.cpp"
#undef main
#define NAME "tiny"
#elif PROG == 2
#define main prog_main
#include "samples/MTDC/mt2.cpp"
#undef main
#define NAME "mt2"
#elif PROG == 3
#define main prog_main
#include "samples/RMT/rmt64dc.cpp"
#undef main
#define NAME "rmt"
#elif PROG == 4
#define main prog_main
#include "samples/sfmtdc/sfmtdc.cpp"
#undef main
#define NAME "sfmt"
#elif PROG == 5
#define main prog_main
#include "samples/dSFMTdc/dSFMTdc.cpp"
#undef main
#define NAME "dsfmt"
#elif PROG == 6
#define main prog_main
#include "samples/MTGPDC/MTGP32dc.cpp"
#undef main
#define NAME "mtgp"
#else
#include <MTToolBox/AlgorithmRecursionSearch.hpp>
#include <MTToolBox/AlgorithmPrimitivity.hpp>
#include <MTToolBox/AlgorithmEquidistribution.hpp>
#include <MTToolBox/Sequential.hpp>
#include <MTToolBox/MersenneTwister.hpp>
#include <MTToolBox/period.hpp>
#define main prog_main
namespace x1 {
#include "samples/XORSHIFT/xorshift-1.cpp"
}
namespace x2 {
#include "samples/XORSHIFT/xorshift-2.cpp"
}
namespace x3 {
#include "samples/XORSHIFT/xorshift-3.cpp"
}
namespace x4 {
#include "samples/XORSHIFT/xorshift-4.cpp"
}
namespace x5 {
#include "samples/XORSHIFT/xorshift-5.cpp"
}
#undef main
#define NAME "xs"
#endif

namespace c25 {
using namespace vf;
using std::string;
using std::vector;
using NTL::GF2X;

// ------------------------------------------------------------------ generators, by definition
// (the same definitions as in Generators.tla; independent of the library)
static inline u128 mask(int n) { return n >= 128 ? ~(u128)0 : (((u128)1 << n) - 1); }
static u128 lshl(u128 x, int k, int lane, int w) {
    u128 r = 0;
    for (int l = 0; l < w; l += lane) r |= ((((x >> l) & mask(lane)) << k) & mask(lane)) << l;
    return r;
}
static u128 lshr(u128 x, int k, int lane, int w) {
    u128 r = 0;
    for (int l = 0; l < w; l += lane) r |= (((x >> l) & mask(lane)) >> k) << l;
    return r;
}
struct State { vector<u128> w; u128 x; };
struct Gen {
    string k;
    int W, n, m, r, lane, bits;
    vector<int> i;
    vector<u128> p;              // words of the parameter set
    Gen(const string& kind, const vector<int>& ii, const vector<u128>& pp) : k(kind), W(32), n(4), m(0), r(0), lane(0), i(ii), p(pp) {
        if (k == "mt2" || k == "mtgp") { n = i[0] / 32 + 1; r = 32 * n - i[0]; m = i[1]; bits = i[0]; }
        else if (k == "rmt") { W = 64; n = i[0] / 64 + 1; m = i[1]; bits = n * 64; }
        else if (k == "sfmt") { W = 128; lane = 32; n = i[0] / 128 + 1; m = i[1]; bits = n * 128; }
        else if (k == "dsfmt") { W = 128; lane = 64; n = (i[0] - 128) / 104 + 1; m = i[1]; bits = (n + 1) * 128; }
        else if (k == "tiny") bits = 127;
        else bits = 128;
    }
    u128 step(State& s) const {
        vector<u128>& w = s.w;
        u128 o = 0, v = 0, M = mask(W);
        if (k == "tiny") {
            uint32_t x = (uint32_t)((w[0] & 0x7fffffff) ^ w[1] ^ w[2]), y = (uint32_t)w[3];
            x ^= x << 1;
            y ^= (y >> 1) ^ x;
            uint32_t s1 = (uint32_t)w[2], s2 = x ^ (y << 10);
            w[0] = w[1];
            if (y & 1) { s1 ^= (uint32_t)p[0]; s2 ^= (uint32_t)p[1]; }
            w[1] = s1; w[2] = s2; w[3] = y;
            uint32_t t1 = (uint32_t)w[0] ^ (uint32_t)(w[2] >> 8), t0 = y ^ t1;
            if (t1 & 1) t0 ^= (uint32_t)p[2];
            return t0;
        }
        if (k == "mt2") {
            u128 y = (w[0] & ~mask(r)) | (w[1] & mask(r));
            v = w[m] ^ (y >> 1) ^ ((y & 1) ? p[0] : 0);
        } else if (k == "rmt") {
            u128 x = w[0], y = w[m];
            v = (y ^ (y << 17) ^ (x >> 1) ^ ((x & 1) ? p[0] : 0)) & M;
        } else if (k == "mtgp") {
            u128 q = (w[0] & ~mask(r)) ^ w[1];
            q = (q ^ (q << i[2])) & M;
            q ^= w[m] >> i[3];
            v = q;
            for (int j = 0; j < 4; j++) if ((q >> j) & 1) v ^= p[j];
        } else if (k == "sfmt") {
            v = w[0] ^ (w[0] << (8 * i[3])) ^ (lshr(w[m], i[4], 32, 128) & p[0]) ^ (w[n - 2] >> (8 * i[5])) ^ lshl(w[n - 1], i[2], 32, 128);
        } else if (k == "dsfmt") {
            u128 cr = 0;
            for (int l = 0; l < 2; l++) {
                uint64_t h = (uint64_t)(s.x >> (64 * l));
                h = (h << 32) | (h >> 32);
                cr |= (u128)h << (64 * (1 - l));
            }
            u128 lung = lshl(w[0], i[2], 64, 128) ^ cr ^ w[m];
            v = lshr(lung, 12, 64, 128) ^ (lung & p[0]) ^ w[0];
            s.x = lung;
        } else {
            auto mix = [](uint32_t x, const vector<int>& ks) { for (int q : ks) x ^= q >= 0 ? x << q : x >> -q; return x; };
            vector<int> a, b;
            if (k == "xs3") { a = {i[0], -i[1]}; b = {-i[2]}; }
            else if (k == "xs5") { a = {11, -7}; b = {20}; }
            else if (k == "xs4") {
                int A = i[1], B = i[2], C = i[3];
                switch (i[0]) {
                case 0: a = {C}; b = {-A, B}; break;
                case 1: a = {-C}; b = {-A, B}; break;
                case 2: a = {C}; b = {A, -B}; break;
                case 3: a = {-C}; b = {A, -B}; break;
                case 4: a = {-B, C}; b = {-A}; break;
                case 5: a = {B, -C}; b = {-A}; break;
                case 6: a = {-B, C}; b = {A}; break;
                default: a = {B, -C}; b = {A}; break;
                }
            } else { a = {5, -14}; b = {-1}; }
            v = mix((uint32_t)w[0], a) ^ mix((uint32_t)w[3], b);
        }
        w.erase(w.begin());
        w.push_back(v);
        o = v;
        if (k == "mt2") {
            u128 y = v; y ^= y >> 12; y ^= (y << 7) & p[1]; y ^= (y << 15) & p[2]; y ^= y >> 18; o = y & M;
        } else if (k == "rmt") {
            u128 y = v; const u128 e = UINT64_C(0x5555555555555555);
            y ^= (y >> 29) & e; y ^= (y << 17) & p[1]; y &= M; y ^= (y << 37) & p[2]; y &= M; y ^= y >> 43; o = y;
        } else if (k == "mtgp") {
            u128 t = w[m - 2]; t ^= t >> 16; t ^= t >> 8;
            for (int j = 0; j < 4; j++) if ((t >> j) & 1) o ^= p[4 + j];
        }
        return o;
    }
    State random(Rng& g) const {
        State s; s.x = 0;
        for (int j = 0; j < n; j++) s.w.push_back((((u128)g.next() << 64) | g.next()) & mask(W));
        if (k == "dsfmt") for (auto& v : s.w) v &= mask(52) | mask(52) << 64;       // the mantissas
        if (k == "dsfmt") s.x = ((u128)g.next() << 64) | g.next();
        return s;
    }
    bool zero(const State& s) const {
        for (int j = 0; j < n; j++) {
            u128 v = s.w[j];
            if (j == 0 && (k == "mt2" || k == "mtgp")) v &= ~mask(r);
            if (j == 0 && k == "tiny") v &= 0x7fffffff;
            if (v) return false;
        }
        return s.x == 0;
    }
    State apply(const GF2X& q, State s) const {          // q(A) s
        State a; a.w.assign(n, 0); a.x = 0;
        for (long j = 0; j <= NTL::deg(q); j++) {
            if (NTL::IsOne(NTL::coeff(q, j))) { for (int t = 0; t < n; t++) a.w[t] ^= s.w[t]; a.x ^= s.x; }
            if (j < NTL::deg(q)) step(s);
        }
        return a;
    }
    // the polynomial that annihilates s (least degree)
    GF2X annihilator(const State& s0, Rng& g) const {
        GF2X l; NTL::SetCoeff(l, 0);
        for (int tries = 0; tries < 40; tries++) {
            State s = apply(l, s0);
            if (zero(s)) return l;
            vector<u128> f(n);
            for (int j = 0; j < n; j++) f[j] = (((u128)g.next() << 64) | g.next()) & mask(W);
            u128 fx = ((u128)g.next() << 64) | g.next();
            if (k == "mt2" || k == "mtgp") f[0] &= ~mask(r);
            if (k == "tiny") f[0] &= 0x7fffffff;
            NTL::vec_GF2 a; a.SetLength(2 * bits);
            for (int j = 0; j < 2 * bits; j++) {
                u128 t = s.x & fx;
                for (int q = 0; q < n; q++) t ^= s.w[q] & f[q];
                uint64_t z = (uint64_t)t ^ (uint64_t)(t >> 64);
                if (__builtin_parityll(z)) a.put(j, 1);
                step(s);
            }
            GF2X h;
            NTL::MinPolySeq(h, a, bits);
            l *= h;
        }
        return GF2X();
    }
};

// ------------------------------------------------------------------ dimensions by elimination
typedef std::bitset<3328> Big;
struct Basis {
    vector<Big> rows; vector<size_t> piv;
    bool insert(Big v) {
        for (size_t j = 0; j < rows.size(); j++) if (v[piv[j]]) v ^= rows[j];
        size_t q = v._Find_first();
        if (q >= v.size()) return false;
        rows.push_back(v); piv.push_back(q);
        return true;
    }
};
template<class T> static Big functional(const vector<T>& outs, int d, int from, int bit) {
    Big b;
    for (int t = 0; t < d; t++) if ((outs[from + t] >> bit) & 1) b.set(t);
    return b;
}
// k(1..W) of the outputs of a generator on a space of dimension d; only vs if given
static vector<int> dims(const vector<u128>& outs, int d, int W) {
    vector<vector<Big> > R(W);
    for (int i = 1; i <= W; i++)
        for (int j = 0; j < d / i; j++) R[i - 1].push_back(functional(outs, d, j, W - i));
    vector<int> ks;
    for (int v = 1; v <= W; v++) {
        Basis b;
        int k = 0;
        for (; k < d / v; k++) {
            bool ok = true;
            for (int i = 0; i < v && ok; i++) ok = b.insert(R[i][k]);
            if (!ok) break;
        }
        ks.push_back(k);
    }
    return ks;
}
// L integers per word, of `stride` bits, leading bit `top`
static vector<int> simdDims(const vector<u128>& outs, int d, int L, int stride, int top, int vmax) {
    vector<int> ks;
    for (int v = 1; v <= vmax; v++) {
        vector<int> B(L);
        for (int s = 0; s < L; s++) {
            Basis b;
            int e = 0;
            for (; e < d / (L * v); e++) {
                bool ok = true;
                for (int q = 0; q < L * v && ok; q++) {
                    int I = s + e * L + q / v, r = q % v;
                    ok = b.insert(functional(outs, d, I / L, (I % L) * stride + top - r));
                }
                if (!ok) break;
            }
            B[s] = e;
        }
        int k = -1;
        for (int sm = 0; sm < L; sm++) {
            int best = -1000;
            for (int w = 1; w <= L; w++) best = std::max(best, L * B[(sm + w) % L] - (L - w));
            if (k < 0 || best < k) k = best;
        }
        ks.push_back(k);
    }
    return ks;
}

// ------------------------------------------------------------------ running
struct Arg { string o, k; u128 v; string text; };
struct Cmd {
    vector<Arg> opts, pos;
    vector<string> argv;
    string file;                  // name given with -f
    long count; bool all; long max;
    int limit;
    Cmd() : count(1), all(false), max(-1), limit(120) {}
};
struct Run { int code; bool late; string out, err, file; };
static string slurp(const string& f) { std::ifstream i(f.c_str()); std::stringstream s; s << i.rdbuf(); return s.str(); }
typedef int (*Main)(int, char **);

struct Pool {
    string dir; size_t width;
    struct J { pid_t pid; size_t k; time_t till; };
    vector<J> live;
    vector<Run> res;
    Pool(const string& d, size_t w) : dir(d), width(w) {}
    string at(size_t k) { std::ostringstream s; s << dir << "/run" << k; return s.str(); }
    void reap() {
        for (size_t j = 0; j < live.size();) {
            int st;
            pid_t r = waitpid(live[j].pid, &st, WNOHANG);
            bool late = false;
            if (r == 0 && time(0) > live[j].till) { kill(live[j].pid, SIGKILL); waitpid(live[j].pid, &st, 0); late = true; r = live[j].pid; }
            if (r == live[j].pid) {
                Run& x = res[live[j].k];
                x.late = late;
                x.code = WIFEXITED(st) ? WEXITSTATUS(st) : 300;
                live.erase(live.begin() + j);
            } else j++;
        }
    }
    vector<Run> all(const vector<Cmd>& cs, Main m) {
        res.assign(cs.size(), Run());
        for (size_t k = 0; k < cs.size(); k++) {
            while (live.size() >= width) { usleep(2000); reap(); }
            string d = at(k);
            mkdir(d.c_str(), 0755);
            std::cout.flush();
            pid_t p = fork();
            if (p == 0) {
                if (chdir(d.c_str())) _exit(99);
                mkdir("a_directory", 0755);
                int o = open("stdout", O_CREAT | O_WRONLY | O_TRUNC, 0644), e = open("stderr", O_CREAT | O_WRONLY | O_TRUNC, 0644);
                dup2(o, 1); dup2(e, 2);
                vector<char *> av;
                static string prog = "search";
                av.push_back(strdup(prog.c_str()));
                for (auto& a : cs[k].argv) av.push_back(strdup(a.c_str()));
                int n = (int)av.size();
                av.push_back(0);
                optind = 0;                            // getopt afresh
                exit(m(n, av.data()));
            }
            J j; j.pid = p; j.k = k; j.till = time(0) + cs[k].limit;
            live.push_back(j);
        }
        while (!live.empty()) { usleep(2000); reap(); }
        for (size_t k = 0; k < cs.size(); k++) {
            res[k].out = slurp(at(k) + "/stdout");
            res[k].err = slurp(at(k) + "/stderr");
            if (!cs[k].file.empty()) res[k].file = slurp(at(k) + "/" + cs[k].file);
        }
        return res;
    }
};

// numbers of a line; empty if it is not a set line (count fields, hex: which are hexadecimal)
static bool number(const string& f, bool hex, u128& v) {
    v = 0;
    if (f.empty()) return false;
    for (char c : f) {
        int d = isdigit((unsigned char)c) ? c - '0' : (hex && isxdigit((unsigned char)c)) ? tolower(c) - 'a' + 10 : -1;
        if (d < 0) return false;
        v = v * (hex ? 16 : 10) + d;
    }
    return true;
}
static vector<u128> fieldsOf(const string& line, const string& fmt) {
    vector<u128> r;
    string t = line;
    for (char& c : t) if (c == ':') c = ',';
    std::istringstream ss(t);
    string f;
    while (std::getline(ss, f, ',')) {
        while (!f.empty() && isspace((unsigned char)f[0])) f.erase(0, 1);
        while (!f.empty() && isspace((unsigned char)f[f.size() - 1])) f.erase(f.size() - 1);
        if (!f.empty() && (f[0] == '"' || f == "uint32_t")) continue;
        u128 v;
        if (r.size() >= fmt.size() || !number(f, fmt[r.size()] == 'h', v)) return vector<u128>();
        r.push_back(v);
    }
    return r;
}
// every line that has several numeric fields looks like a set; one of another size is wrong, not ignored
static vector<vector<u128> > sets(const string& text, const string& fmt, int& stray) {
    vector<vector<u128> > r;
    std::istringstream ss(text);
    string line;
    while (std::getline(ss, line)) {
        vector<u128> f = fieldsOf(line, fmt);
        if (f.size() == fmt.size()) r.push_back(f);
        else {
            bool digits = !line.empty();
            int commas = 0, alnum = 0;
            for (char c : line) { if (c == ',') commas++; else if (isxdigit((unsigned char)c)) alnum++; else if (c != ' ' && c != ':' && c != '"') digits = false; }
            if (digits && commas >= (int)fmt.size() / 2 && alnum) stray++;
        }
    }
    return r;
}

// ------------------------------------------------------------------ recording
static Log *lg;
static Rng *rng;
static Args *args;
static string one(const Arg& a) {
    Ev e("x");
    e.str("o", a.o).str("k", a.k).bits("v", a.v);
    return e.done();
}
static string list(const vector<Arg>& as) {
    string s = "[";
    for (size_t j = 0; j < as.size(); j++) { if (j) s += ","; s += one(as[j]); }
    return s + "]";
}
static void putCmd(const string& prog, const Cmd& c, const char *kind = "cmd", long n = 0) {
    string line = prog;
    for (auto& a : c.argv) line += " " + a;
    Ev e(kind); e.str("prog", prog).raw("opts", list(c.opts)).raw("pos", list(c.pos)).str("line", line).i("n", n); lg->put(e);
}
// with -v the programs print their progress, which may resemble sets
static bool verbose(const Cmd& c) { for (auto& a : c.opts) if (a.o == "v") return true; return false; }
static void putEnd(const Run& r, int stray) {
    bool usage = (r.out + r.err).find("--count") != string::npos;
    Ev e("end"); e.i("code", r.code).b("usage", usage).i("stray", stray).b("late", r.late); lg->put(e);
}
static void putState(Ev& e, const char *w, const char *x, const State& s) { e.words(w, s.w).bits(x, s.x); }
static vector<u128> outputs(const Gen& G, State s, int k) { vector<u128> o; for (int j = 0; j < k; j++) o.push_back(G.step(s)); return o; }
static bool irreducible(const GF2X& p) { return NTL::deg(p) == 1 || (NTL::deg(p) > 1 && NTL::IterIrredTest(p)); }

// 128-bit exponents (2^128 - 1) / q
static vector<NTL::ZZ> cofactors() {
    static const char *qs[] = {"3", "5", "17", "257", "65537", "641", "6700417", "274177", "67280421310721"};
    vector<NTL::ZZ> r;
    NTL::ZZ n = (NTL::ZZ(1) << 128) - 1;
    for (auto q : qs) r.push_back(n / NTL::conv<NTL::ZZ>(q));
    return r;
}
// does the generator have maximal period?  If not, why: an annihilated state, or a short order
struct Why { bool maximal; string why; GF2X p; State s; NTL::ZZ E; };
static Why judge(const Gen& G, Rng& g) {
    Why r; r.maximal = false; r.why = "none";
    State s = G.random(g);
    GF2X l = G.annihilator(s, g);
    r.s = s; r.p = l;
    if (NTL::deg(l) < G.bits) { if (NTL::deg(l) >= 0 && !G.zero(s)) r.why = "red"; return r; }
    if (!irreducible(l)) {
        NTL::vec_pair_GF2X_long fs;
        NTL::CanZass(fs, l);
        long b = 0;
        for (long j = 1; j < fs.length(); j++) if (NTL::deg(fs[j].a) < NTL::deg(fs[b].a)) b = j;
        r.s = G.apply(l / fs[b].a, s); r.p = fs[b].a; r.why = "red";
        return r;
    }
    if (G.bits == 128) {
        NTL::GF2XModulus F(l);
        for (auto& E : cofactors()) {
            GF2X y;
            NTL::PowerXMod(y, E, F);
            if (NTL::IsOne(y)) { r.why = "order"; r.E = E; return r; }
        }
    }
    r.maximal = true;
    return r;
}
static void putSkip(long n, const Why& y) {
    Ev e("skip"); e.i("n", n).str("why", y.why).poly("p", y.p); putState(e, "w", "x", y.s);
    e.zzBits("E", y.E);
    lg->put(e);
}
// evidence for the description of a set of a generator whose whole state space is one cycle
static vector<int> pick(Rng& g, int n, int hi) { vector<int> r; for (int j = 0; j < n; j++) r.push_back(g.in(1, hi)); return r; }
static void describe(const string& k, const vector<u128>& f, const Gen& G, int spots, bool tlaIrr) {
    Rng g(rng->next());
    State s = G.random(g);
    GF2X p = G.annihilator(s, g), q; NTL::SetCoeff(q, 0);
    int d = G.bits;
    if (k == "rmt" || k == "sfmt" || k == "dsfmt") {
        d = G.i[0];
        NTL::vec_pair_GF2X_long fs;
        NTL::CanZass(fs, p);
        GF2X best;
        for (long j = 0; j < fs.length(); j++) if (NTL::deg(fs[j].a) == d) best = fs[j].a;
        if (NTL::deg(best) == d) { q = p / best; p = best; }
    }
    bool irr = irreducible(p);
    State t = G.apply(q, s);
    Ev e("describe");
    e.str("prog", k).poly("p", p).poly("q", q); putState(e, "w", "x", s);
    e.b("irr", irr && !tlaIrr);
    vector<u128> o = outputs(G, t, 2 * d + 4);
    if (k == "sfmt") {
        e.ints("ks", dims(o, d, 128)).ints("ks64", simdDims(o, d, 2, 64, 63, 64)).ints("ks32", simdDims(o, d, 4, 32, 31, 32));
        int z = g.below(3);
        e.ints("vs", pick(g, z == 0 ? spots : 0, 128)).ints("vs64", pick(g, z == 1 ? spots : 0, 64)).ints("vs32", pick(g, z == 2 ? spots : 0, 32));
    } else if (k == "dsfmt") {
        e.ints("ks", simdDims(o, d, 2, 64, 51, 52)).ints("vs", pick(g, spots, 52));
    } else {
        e.ints("ks", dims(o, d, G.W)).ints("vs", pick(g, spots, G.W));
    }
    lg->put(e);
}

// ------------------------------------------------------------------ commands
static string dec(u128 v) { string s; if (!v) return "0"; while (v) { s.insert(0, 1, (char)('0' + (int)(v % 10))); v /= 10; } return s; }
static string hexa(u128 v) { std::ostringstream s; s << "0x" << std::hex << (uint64_t)v; return s.str(); }
static const char *longName(const string& prog, char o) {
    switch (o) {
    case 'c': return "count";
    case 'v': return "verbose";
    case 'a': return "all";
    case 's': return prog == "tiny" ? "start" : "seed";
    case 'm': return "max";
    case 'f': return prog == "mtgp" ? "output-file" : "file";
    case 'x': return "fixed";
    }
    return "";
}
struct Builder {
    string prog; Cmd c; Rng& g;
    vector<vector<string> > parts;      // options, to be mixed with the positional arguments
    Builder(const string& p, Rng& r) : prog(p), g(r) {}
    void spell(char o, const string& v) {
        string L = longName(prog, o);
        switch (o == 'x' ? g.in(1, 2) : g.below(4)) {
        case 0: parts.push_back({string("-") + o, v}); break;
        case 1: if (!v.empty()) { parts.push_back({string("-") + o + v}); break; }    // fall through
        case 2: parts.push_back({"--" + L + "=" + v}); break;
        default: parts.push_back({"--" + L, v}); break;
        }
    }
    Builder& opt(char o, const string& k, u128 v, const string& text) {
        Arg a; a.o = string(1, o); a.k = k; a.v = v; a.text = text;
        c.opts.push_back(a);
        if (k == "none") parts.push_back({g.coin() ? string("-") + o : string("--") + longName(prog, o)});
        else if (k == "missing") parts.push_back({g.coin() ? string("-") + o : string("--") + longName(prog, o)});   // last
        else spell(o, text);
        if (o == 'c' && k == "num") c.count = (long)v;
        if (o == 'm' && k == "num") c.max = (long)v;
        if (o == 'a') c.all = true;
        if (o == 'f') c.file = text;
        return *this;
    }
    Builder& num(char o, u128 v) {
        bool hex = (o == 's' || o == 'x') && v <= ~(uint64_t)0 && g.coin();
        return opt(o, "num", v, hex ? hexa(v) : dec(v));
    }
    Builder& flag(char o) { return opt(o, "none", 0, ""); }
    Builder& fixedDefault() { return opt('x', "none", 19, ""); }
    Builder& text(char o, const string& s) { u128 v = 0; for (size_t j = 0; j < s.size(); j++) v |= (u128)(unsigned char)s[j] << (8 * j); return opt(o, "str", v, s); }
    Builder& junk(char o) { static const char *js[] = {"abc", "3x", "", "1.5", "0x", "--", " ", "12 "}; return opt(o, "junk", 0, js[g.below(8)]); }
    Builder& path(char o) { return opt(o, "path", 0, g.coin() ? "sets.txt" : "./a_directory/out"); }
    Builder& badPath(char o) { return opt(o, "badpath", 0, g.coin() ? "a_directory" : "no/such/place"); }
    Builder& pos(u128 v) { Arg a; a.o = ""; a.k = "num"; a.v = v; a.text = dec(v); c.pos.push_back(a); return *this; }
    Builder& posJunk() { static const char *js[] = {"abc", "52l", "1e3", "", "521.0"}; Arg a; a.k = "junk"; a.v = 0; a.text = js[g.below(5)]; c.pos.push_back(a); return *this; }
    Cmd done(int limit = 120) {
        vector<string> r;
        bool missing = !c.opts.empty() && c.opts.back().k == "missing";
        size_t last = missing ? parts.size() - 1 : parts.size();
        // positional arguments keep their order, options stand anywhere
        vector<vector<string> > items(parts.begin(), parts.begin() + last);
        size_t at = 0;
        for (auto& p : c.pos) { at = g.in((int)at, (int)items.size()); items.insert(items.begin() + at, vector<string>(1, p.text)); at++; }
        for (auto& p : items) r.insert(r.end(), p.begin(), p.end());
        if (missing) r.insert(r.end(), parts.back().begin(), parts.back().end());
        c.argv = r;
        c.limit = limit;
        return c;
    }
};
// commands that have to be refused
static vector<Cmd> refused(const string& prog, Rng& g, int n) {
    bool two = prog == "mt2" || prog == "mtgp", tiny = prog == "tiny";
    vector<u128> good = prog == "mtgp" ? vector<u128>{3217} : prog == "sfmt" ? vector<u128>{607} : vector<u128>{521};
    vector<char> numeric = {'c'};
    if (prog != "mtgp") numeric.push_back('s');
    if (tiny || prog == "mt2") numeric.push_back('m');
    vector<Cmd> r;
    for (int k = 0; k < n; k++) {
        Builder b(prog, g);
        int what = k % 9;
        if (g.below(3) == 0) b.flag('v');
        if (what == 0) b.junk(numeric[(k / 9) % numeric.size()]);
        else if (what == 1) {
            char o = numeric[(k / 9) % numeric.size()];
            int w = o == 's' && !tiny ? 64 : (o == 'c' && prog == "mtgp") ? 63 : 31;
            b.num(o, ((u128)1 << w) + (g.coin() ? 0 : g.below(1000)));
        } else if (what == 2 && prog != "mt2") b.badPath('f');
        else if (what == 2) b.opt('f', "path", 0, "x");                  // not an option of mt2
        else if (what == 3) { Arg a; a.o = "z"; a.k = "junk"; a.v = 0; b.c.opts.push_back(a); b.parts.push_back({g.coin() ? "-z" : g.coin() ? "--nosuch" : "--nosuch=1"}); }
        else if (g.coin()) b.num('c', 1);
        // positional arguments
        int pw = what == 4 ? 1 : what == 5 ? 2 : what == 6 ? 3 : what == 7 ? (two ? 4 : 2) : 0;
        if (tiny) {
            if (pw == 1) ;                                               // missing
            else if (pw == 2) b.posJunk();
            else if (pw == 3) b.pos(((u128)1 << 32) + g.below(5));
            else b.pos(g.below(1000));
        } else {
            if (pw == 1) { if (two && g.coin()) b.pos(good[0]); }
            else if (pw == 2) b.posJunk();
            else if (pw == 3) { static const int bad[] = {522, 520, 1, 0, 52, 44498, 127, 132049, 5210}; b.pos(g.below(4) ? bad[g.below(9)] : g.next()); }
            else b.pos(good[0]);
            if (two && pw != 1) {
                if (pw == 4) { if (g.coin()) b.posJunk(); else b.pos(prog == "mt2" ? 65536 + g.below(3) : ((u128)1 << 32) + g.below(3)); }
                else b.pos(g.below(100));
            }
        }
        if (what == 8) b.opt(numeric[g.below((int)numeric.size())], "missing", 0, "");
        b.c.file = "";
        r.push_back(b.done(60));
    }
    return r;
}
static void recordRefused(const string& prog, const vector<Cmd>& cs, const vector<Run>& rs, size_t from, size_t n, const string& fmt) {
    lg->session(0.1);
    Ev e0("reset"); lg->put(e0);
    for (size_t k = from; k < from + n; k++) {
        putCmd(prog, cs[k]);
        int stray = 0;
        vector<vector<u128> > f = sets(rs[k].out, fmt, stray);
        vector<vector<u128> > f2 = sets(rs[k].err, fmt, stray);
        putEnd(rs[k], stray + (int)f.size() + (int)f2.size());
    }
}
} // namespace c25
using namespace c25;

#if PROG == 1
typedef std::map<long, vector<u128> > Listing;
static Gen tinyGen(uint32_t id, uint32_t num) {
    uint32_t w = num ^ (num << 15) ^ (num << 23); w <<= 1;
    uint32_t m1 = (w & 0xffff0000u) | (id & 0xffff), m2 = (w & 0xffff) | (id & 0xffff0000u);
    m1 ^= m1 >> 19; m2 ^= m2 << 18; m2 ^= 1;
    return Gen("tiny", {}, {m1, m2, 0});
}
static const char *FMT = "hdhhhdd";
struct Group {
    uint32_t id; std::set<long> passed; std::set<string> told; Listing listing;
    void record(const Cmd& c, const Run& r, long start) {
        Rng g(rng->next());
        putCmd("tiny", c);
        int stray = 0;
        vector<vector<u128> > in = sets(r.out, FMT, stray), out = sets(r.file, FMT, stray);
        vector<std::pair<vector<u128>, bool> > ls;
        for (auto& f : in) ls.push_back({f, false});
        for (auto& f : out) ls.push_back({f, true});
        long n = start;
        long max = c.max < 0 ? 10 : c.max;
        auto skip = [&](long k) {
            if (passed.count(k)) { Ev e("skip"); e.i("n", k).str("why", "again"); lg->put(e); return true; }
            Why y = judge(tinyGen(id, (uint32_t)k), g);
            if (y.maximal) {
                if (listing.count(k) && (long)listing[k].back() > max) { Ev e("skip"); e.i("n", k).str("why", "base"); lg->put(e); return true; }
                Ev e("skip"); e.i("n", k).str("why", "none"); lg->put(e);
                return false;
            }
            putSkip(k, y);
            passed.insert(k);
            return true;
        };
        for (auto& l : ls) {
            long steps = 0;
            bool ok = true;
            for (; n >= 0 && ok && steps < 6000; n--, steps++) {
                Gen G = tinyGen(id, (uint32_t)n);
                if (l.first[2] == G.p[0] && l.first[3] == G.p[1]) break;
                // a set that is out of order is not searched for
                if (!passed.count(n) && !(listing.count(n) && (long)listing[n].back() > max) && judge(G, g).maximal) { ok = false; break; }
                ok = skip(n);
            }
            bool found = n >= 0 && ok && steps < 6000;
            Ev e("print"); e.words("f", l.first).i("n", found ? n : -1).str("to", l.second ? "file" : "out"); lg->put(e);
            if (!found) return;                   // rejected there
            listing[n] = l.first;
            std::ostringstream key; key << n << ":"; for (auto v : l.first) key << dec(v) << ",";
            if (told.insert(key.str()).second) describe("tiny", l.first, Gen("tiny", {}, {l.first[2], l.first[3], l.first[4]}), args->thorough ? 6 : 2, true);
            n--;
        }
        if (c.all || (long)ls.size() < c.count) for (; n >= 0; n--) if (!skip(n)) break;
        putEnd(r, verbose(c) ? 0 : stray);
    }
};
static void go(Pool& pool) {
    Rng& g = *rng;
    const long top = 0x7fffffff;
    vector<Cmd> cs;
    struct Part { uint32_t id; long start; size_t from, to; };
    vector<Part> parts;
    int groups = args->thorough ? 8 : 2;
    for (int k = 0; k < groups; k++) {
        uint32_t id = k == 0 ? (uint32_t)g.next() : g.coin() ? (uint32_t)g.below(3) : 0xffffffffu - (uint32_t)g.below(3);
        Part p; p.id = id; p.start = top; p.from = cs.size();
        cs.push_back(Builder("tiny", g).num('m', 1000000).num('c', 8).pos(id).done());
        cs.push_back(Builder("tiny", g).num('c', 3).num('m', 0).path('f').pos(id).done());
        cs.push_back(Builder("tiny", g).num('c', 4).pos(id).done());
        cs.push_back(Builder("tiny", g).flag('v').path('f').pos(id).done());
        cs.push_back(Builder("tiny", g).num('c', 5).num('c', 2).flag('v').num('m', 3).num('m', 7).pos(id).done());
        cs.push_back(Builder("tiny", g).num('c', 0).pos(id).done());
        cs.push_back(Builder("tiny", g).num('c', 6).num('m', 0).pos(id).done());
        p.to = cs.size(); parts.push_back(p);
        // from elsewhere, and to the end of the source
        long s = (long)(g.next() & 0x7fffffff);
        p.start = s; p.from = cs.size();
        cs.push_back(Builder("tiny", g).num('c', 3).num('s', s).pos(id).done());
        cs.push_back(Builder("tiny", g).num('s', s).path('f').num('c', 1).pos(id).done());
        p.to = cs.size(); parts.push_back(p);
        s = g.in(100, 260);
        p.start = s; p.from = cs.size();
        cs.push_back(Builder("tiny", g).flag('a').num('s', s).num('m', 1000).pos(id).done());
        cs.push_back(Builder("tiny", g).num('s', s).flag('a').num('m', 0).pos(id).done());
        cs.push_back(Builder("tiny", g).num('s', s).num('c', 90).path('f').num('m', 1000).pos(id).done());
        p.to = cs.size(); parts.push_back(p);
        // a start that qualifies; an identifier whose last candidate qualifies
        s = g.in(20, 500);
        while (!judge(tinyGen(id, (uint32_t)s), g).maximal) s++;
        p.start = s; p.from = cs.size();
        cs.push_back(Builder("tiny", g).num('s', s).num('m', 1000).pos(id).done());
        cs.push_back(Builder("tiny", g).num('m', 1000).num('s', s).num('c', 3).pos(id).done());
        p.to = cs.size(); parts.push_back(p);
        uint32_t id0 = id;
        while (!judge(tinyGen(id0, 0), g).maximal) id0++;
        p.id = id0; p.start = s = g.below(4); p.from = cs.size();
        cs.push_back(Builder("tiny", g).flag('a').num('s', s).num('m', 1000).pos(id0).done());
        cs.push_back(Builder("tiny", g).num('s', s).num('c', 4).num('m', 1000).pos(id0).done());
        p.to = cs.size(); parts.push_back(p);
        p.id = id;
        s = g.below(3);
        p.start = s; p.from = cs.size();
        cs.push_back(Builder("tiny", g).flag('a').num('s', s).num('c', 2).pos(id).done());
        cs.push_back(Builder("tiny", g).num('s', s).pos(id).done());
        p.to = cs.size(); parts.push_back(p);
    }
    size_t bad = cs.size();
    size_t nb = args->thorough ? 300 : 90;
    for (auto& c : refused("tiny", g, (int)nb)) cs.push_back(c);
    vector<Run> rs = pool.all(cs, prog_main);
    for (auto& p : parts) {
        lg->session(p.start == top ? 8 : p.start > 10000 ? 4 : 2);
        Ev e("reset"); lg->put(e);
        Group G; G.id = p.id;
        for (size_t k = p.from; k < p.to; k++) G.record(cs[k], rs[k], p.start);
    }
    recordRefused("tiny", cs, rs, bad, nb, FMT);
}
#elif PROG == 7
typedef std::pair<vector<int>, vector<u128> > Line;
static vector<int> params(const string& k, long n) {
    if (k == "xs3") return {(int)(n & 31), (int)((n >> 5) & 31), (int)((n >> 10) & 31)};
    return {(int)((n >> 15) & 7), (int)((n >> 10) & 31), (int)((n >> 5) & 31), (int)(n & 31)};
}
static bool candidate(const Gen& G) {            // quick: could it be of maximal period?
    State s; s.x = 0; s.w = {0x12345678, 0x9abcdef1, 0x31415926, 0x27182818};
    NTL::vec_GF2 a; a.SetLength(256);
    for (int j = 0; j < 256; j++) { a.put(j, (long)(s.w[3] & 1)); G.step(s); }
    GF2X h; NTL::MinPolySeq(h, a, 128);
    return NTL::deg(h) == 128 && NTL::IterIrredTest(h);
}
// the table printed by xorshift-2 and -5: lines  k( v): number  d( v): number,  then  delta: number
static void table(const string& out, vector<long>& ks, vector<long>& ds, long& sum) {
    std::istringstream ss(out); string line;
    sum = -1;
    while (std::getline(ss, line)) {
        vector<long> r;
        for (size_t j = 0; j < line.size();) {
            if (isdigit((unsigned char)line[j])) { char *e; r.push_back(strtol(line.c_str() + j, &e, 10)); j = e - line.c_str(); } else j++;
        }
        if (line.find("delta") != string::npos) sum = r.empty() ? -1 : r.back();
        else if (r.size() == 4 && r[0] == (long)ks.size() + 1 && r[2] == r[0]) { ks.push_back(r[1]); ds.push_back(r[3]); }
        else if (!r.empty()) ks.push_back(-1);
    }
}
static void listing(const string& k, const Run& r, long top) {
    Rng& g = *rng;
    string fmt = k == "xs3" ? "dddd" : "ddddd";
    int stray = 0;
    vector<vector<u128> > ls = sets(r.out, fmt, stray);
    vector<long> ns;
    std::map<long, vector<u128> > at;
    Cmd c;
    auto start = [&](double weight) { lg->session(weight); Ev e("reset"); lg->put(e); putCmd(k, c); 
        for (auto& f : ls) {
            long n = 0;
            if (k == "xs3") n = (long)(f[1] | f[2] << 5 | f[3] << 10); else n = (long)(f[1] << 15 | f[2] << 10 | f[3] << 5 | f[4]);
            Ev p("print"); p.words("f", f).i("n", n < 0 || n > top ? -1 : n).str("to", "out"); lg->put(p);
            if (!at.count(n)) { ns.push_back(n); at[n] = f; }
        }
        putEnd(r, stray);
    };
    // candidates that may be missing
    vector<long> odd;
    start(1);
    for (long n = top; n >= 0 && odd.size() < 3; n--) {
        Gen G(k, params(k, n), {});
        if (!at.count(n) && candidate(G) && judge(G, g).maximal) odd.push_back(n);
    }
    auto scan = [&](long hi, long lo) {
        putCmd(k, c, "scan", hi);
        for (long n = hi; n >= lo; n--) {
            Gen G(k, params(k, n), {});
            if (at.count(n)) {
                Ev e("listed"); e.i("n", n).words("f", at[n]); lg->put(e);
                describe(k, at[n], G, args->thorough ? 8 : 4, true);
            } else {
                Why y = judge(G, g);
                if (y.maximal) { Ev e("skip"); e.i("n", n).str("why", "none"); lg->put(e); return; }
                putSkip(n, y);
            }
        }
        Ev e("endscan"); e.i("n", lo); lg->put(e);
    };
    for (long n : odd) scan(n, n);
    int windows = args->thorough ? 60 : 4, width = args->thorough ? 60 : 30;
    for (int w = 0; w < windows; w++) {
        if (w) start(2);
        long lo = g.in(0, (int)(top - width));
        if (w == 0) lo = 0;
        if (w == 1) lo = top - width;
        scan(lo + width, lo);
        // listed sets, described
        int some = args->thorough ? (int)ns.size() / windows + 1 : 2;
        for (int j = 0; j < some && !ns.empty(); j++) {
            long n = args->thorough ? ns[(w * some + j) % ns.size()] : ns[g.below((int)ns.size())];
            scan(n, n);
        }
    }
}
static void go(Pool& pool) {
    Cmd c;
    Main ms[5] = {[](int, char **) { return x1::prog_main(); }, [](int, char **) { return x2::prog_main(); }, [](int, char **) { return x3::prog_main(); },
                  [](int, char **) { return x4::prog_main(); }, [](int, char **) { return x5::prog_main(); }};
    vector<Run> rs;
    for (int k = 0; k < 5; k++) rs.push_back(pool.all(vector<Cmd>(1, c), ms[k])[0]);
    // xorshift-1, -2, -5: one generator
    for (int k = 0; k < 5; k++) {
        if (k == 2 || k == 3) continue;
        lg->session(2);
        Ev e0("reset"); lg->put(e0);
        string name = k == 0 ? "xs1" : k == 1 ? "xs2" : "xs5";
        Gen G(name, {}, {});
        Rng g(rng->next());
        State s = G.random(g);
        GF2X p = G.annihilator(s, g);
        if (k == 0) {
            bool full = rs[k].out.find("2^128") != string::npos, unknown = rs[k].out.find("unknown") != string::npos;
            size_t d = rs[k].out.find("degree");
            long degree = -1;
            if (d != string::npos) { while (d < rs[k].out.size() && !isdigit((unsigned char)rs[k].out[d])) d++; degree = atol(rs[k].out.c_str() + d); }
            Ev e("period"); e.str("prog", name).i("code", rs[k].code).i("degree", degree).b("full", full && !unknown).poly("p", p); putState(e, "w", "x", s); lg->put(e);
        } else {
            long sum;
            vector<long> v, ds; table(rs[k].out, v, ds, sum);
            Ev e("table"); e.str("prog", name).i("code", rs[k].code).ints("ds", ds).ints("ks", v).i("sum", sum).poly("p", p); putState(e, "w", "x", s); lg->put(e);
        }
    }
    listing("xs3", rs[2], 0x7fff);
    listing("xs4", rs[3], 0x3ffff);
}
#else
#if PROG == 2
static const char *FMT = "dddhhhd";
static Gen genOf(const vector<u128>& f) { return Gen("mt2", {(int)f[0], (int)f[2]}, {f[3], f[4], f[5]}); }
static bool sane(const vector<u128>& f) { return f[0] <= 2300 && f[0] > 64 && f[2] > 0 && f[2] < f[0] / 32 + 1; }
#elif PROG == 3
static const char *FMT = "ddhhhhd";
static Gen genOf(const vector<u128>& f) { return Gen("rmt", {(int)f[0], (int)f[1]}, {f[2], f[4], f[5]}); }
static bool sane(const vector<u128>& f) { return f[0] <= 2300 && f[0] > 64 && f[1] < f[0] / 64 + 1; }
#elif PROG == 4
static const char *FMT = "ddddddhhhhhhhhddd";
static Gen genOf(const vector<u128>& f) { return Gen("sfmt", {(int)f[0], (int)f[1], (int)f[2], (int)f[3], (int)f[4], (int)f[5]}, {f[6] | f[7] << 32 | f[8] << 64 | f[9] << 96}); }
static bool sane(const vector<u128>& f) { return f[0] <= 2300 && f[0] > 256 && f[1] > 0 && f[1] < f[0] / 128 && f[2] < 32 && f[3] < 16 && f[4] < 32 && f[5] < 16; }
#elif PROG == 5
static const char *FMT = "dddhhhhhhd";
static Gen genOf(const vector<u128>& f) { return Gen("dsfmt", {(int)f[0], (int)f[1], (int)f[2]}, {f[3] | f[4] << 64}); }
static bool sane(const vector<u128>& f) { return f[0] <= 2300 && f[0] > 256 && f[1] > 0 && f[1] < (f[0] - 128) / 104 && f[2] < 64; }
#else
static const char *FMT = "dddddhhhhhhhhhdd";
static Gen genOf(const vector<u128>& f) { return Gen("mtgp", {(int)f[0], (int)f[2], (int)f[3], (int)f[4]}, vector<u128>(f.begin() + 5, f.begin() + 13)); }
static bool sane(const vector<u128>& f) { return f[0] <= 3300 && f[0] > 64 && f[2] > 2 && f[2] < f[0] / 32 + 1 && f[3] < 32 && f[4] < 32; }
#endif
static void record(const Cmd& c, const Run& r, std::set<string>& told, int spots) {
    putCmd(NAME, c);
    int stray = 0;
    vector<vector<u128> > in = sets(r.out, FMT, stray), out = sets(r.file, FMT, stray);
    size_t k = 0;
    for (auto* ls : {&in, &out})
        for (auto& f : *ls) {
            Ev e("print"); e.words("f", f).i("n", (long)k++).str("to", ls == &out ? "file" : "out"); lg->put(e);
            std::ostringstream key; for (auto v : f) key << dec(v) << ",";
            if (!sane(f)) { Ev b("insane"); lg->put(b); return; }
            if (told.insert(key.str()).second) describe(NAME, f, genOf(f), spots, args->thorough && told.size() == 1 && f[0] <= 521);
        }
    putEnd(r, verbose(c) ? 0 : stray);
}
static void go(Pool& pool) {
    Rng& g = *rng;
    bool T = args->thorough;
    vector<Cmd> cs;
    vector<std::pair<size_t, size_t> > parts;
    int groups = NAME == string("mt2") ? (T ? 8 : 3) : NAME == string("dsfmt") ? (T ? 8 : 3) : NAME == string("mtgp") ? (T ? 3 : 1) : (T ? 6 : 2);
    const int limit = 330;
    for (int k = 0; k < groups; k++) {
        size_t from = cs.size();
#if PROG == 6
        uint32_t id = k % 2 ? 0xfffffffeu : (uint32_t)g.next() | 0x80000001u;
        string seed = "seed" + dec(g.below(100000));
        cs.push_back(Builder(NAME, g).num('c', 2).text('s', seed).pos(3217).pos(id).done(limit));
        cs.push_back(Builder(NAME, g).flag('v').text('s', seed).path('f').pos(3217).pos(id).done(limit));
        cs.push_back(Builder(NAME, g).num('c', 0).text('s', seed).pos(3217).pos(id).done(limit));
        cs.push_back(Builder(NAME, g).text('s', seed + "b").pos(3217).pos(id).done(limit));
#else
        vector<int> ms = NAME == string("sfmt") ? vector<int>{607} : NAME == string("dsfmt") || NAME == string("rmt") ? vector<int>{521} : vector<int>{521, 607, 521};
        if (T && NAME == string("rmt")) ms.push_back(607);
        int mexp = ms[k % ms.size()];
        uint64_t seed = k % 3 == 0 ? (uint64_t)g.below(5) : k % 3 == 1 ? (uint64_t)(uint32_t)g.next() : g.next();
        uint32_t id = (uint32_t)(k % 2 ? g.below(3) : g.next() & 0xffff);
        int n = NAME == string("rmt") ? 2 : NAME == string("sfmt") ? 2 : 3;
        auto fin = [&](Builder b) { b.pos(mexp); if (NAME == string("mt2")) b.pos(id); return b.done(limit); };
        bool fix = NAME == string("dsfmt") && k % 3 != 0;
        int amount = k == 1 ? g.in(32, 40) : g.in(2, 40);
        auto base = [&]() { Builder b(NAME, g); b.num('s', seed); if (fix) { if (k % 3 == 1) b.num('x', amount); else b.fixedDefault(); } return b; };
        cs.push_back(fin(base().num('c', n)));
        if (NAME == string("mt2")) cs.push_back(fin(base().num('c', 1).flag('v'))); else cs.push_back(fin(base().num('c', 1).path('f').flag('v')));
        if (NAME != string("mt2")) cs.push_back(fin(base().path('f').num('c', n))); else cs.push_back(fin(base().num('m', 1000000)));
        cs.push_back(fin(base().num('c', 0)));
        { Builder b = base(); cs.push_back(fin(b)); }
        // another seed of the same search
        { uint64_t s2 = seed + 1; std::swap(seed, s2); cs.push_back(fin(base().num('c', 1))); std::swap(seed, s2); }
        if (NAME == string("rmt") || NAME == string("dsfmt")) { seed ^= (uint64_t)1 << g.in(32, 63); cs.push_back(fin(base().num('c', 1))); }
#endif
        parts.push_back(std::make_pair(from, cs.size()));
    }
    size_t bad = cs.size(), nb = T ? 300 : 90;
    for (auto& c : refused(NAME, g, (int)nb)) cs.push_back(c);
    vector<Run> rs = pool.all(cs, prog_main);
    for (auto& p : parts) {
        lg->session(10);
        Ev e("reset"); lg->put(e);
        std::set<string> told;
        for (size_t k = p.first; k < p.second; k++) record(cs[k], rs[k], told, 1);
    }
    recordRefused(NAME, cs, rs, bad, nb, FMT);
}
#endif

int main(int argc, char **argv) {
    Args a(argc, argv);
    Rng r(a.seed * 977 + PROG);
    Log l(a.dir, a.files);
    args = &a; rng = &r; lg = &l;
    Pool p(a.dir, a.thorough ? 8 : 4);
    go(p);
    return 0;
}
