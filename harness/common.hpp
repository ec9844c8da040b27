// Common parts of the conformance drivers: event log, independent random source,
// user-defined "toy" F2-linear machines.  Everything here is independent of the
// library's helpers, so that a defect of the library cannot hide in the driver.
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#include <bitset>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include <memory>
#include <stdexcept>
#include <functional>
#include <NTL/GF2X.h>
#include <NTL/GF2XFactoring.h>
#include <NTL/mat_GF2.h>
#include <NTL/ZZ.h>

namespace vf {

typedef unsigned __int128 u128;
typedef std::bitset<1024> BV;

// ---------------------------------------------------------------- random
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * UINT64_C(0x9E3779B97F4A7C15) + 12345) {}
    uint64_t next() {
        uint64_t z = (s += UINT64_C(0x9E3779B97F4A7C15));
        z = (z ^ (z >> 30)) * UINT64_C(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)) * UINT64_C(0x94D049BB133111EB);
        return z ^ (z >> 31);
    }
    int below(int n) { return (int)(next() % (uint64_t)n); }
    int in(int a, int b) { return a + below(b - a + 1); }
    bool coin() { return next() & 1; }
};

// ---------------------------------------------------------------- words
template<class U> inline u128 bitsOf(const U& x) {
    u128 r = 0;
    memcpy(&r, &x, sizeof(U));
    return r;
}
template<class U> inline U wordOf(u128 v) {
    U x;
    memcpy(&x, &v, sizeof(U));
    return x;
}
template<class U> inline int width() { return (int)sizeof(U) * 8; }
inline u128 revBits(u128 v, int w) {
    u128 r = 0;
    for (int i = 0; i < w; i++) if ((v >> i) & 1) r |= (u128)1 << (w - 1 - i);
    return r;
}

// ---------------------------------------------------------------- events
class Ev {
public:
    explicit Ev(const char *name) { s << "{\"e\":\"" << name << "\""; }
    Ev& i(const char *k, long v) { key(k); s << v; return *this; }
    Ev& b(const char *k, bool v) { key(k); s << (v ? "true" : "false"); return *this; }
    Ev& str(const char *k, const std::string& v) {
        key(k); s << '"';
        for (size_t j = 0; j < v.size(); j++) {
            char c = v[j];
            if (c == '"' || c == '\\') s << '\\' << c;
            else if (c == '\n') s << "\\n";
            else if ((unsigned char)c < 32) s << ' ';
            else s << c;
        }
        s << '"';
        return *this;
    }
    // set of 1-positions
    Ev& bits(const char *k, u128 v) { key(k); putBits(v); return *this; }
    template<class U> Ev& word(const char *k, const U& v) { return bits(k, bitsOf(v)); }
    Ev& vec(const char *k, const BV& v) { key(k); putVec(v); return *this; }
    Ev& poly(const char *k, const NTL::GF2X& p) {
        key(k); s << '[';
        bool first = true;
        for (long j = 0; j <= NTL::deg(p); j++)
            if (NTL::IsOne(NTL::coeff(p, j))) { if (!first) s << ','; first = false; s << j; }
        s << ']';
        return *this;
    }
    Ev& zzBits(const char *k, const NTL::ZZ& z) {
        key(k); s << '[';
        bool first = true;
        for (long j = 0; j < NTL::NumBits(z); j++)
            if (NTL::bit(z, j)) { if (!first) s << ','; first = false; s << j; }
        s << ']';
        return *this;
    }
    Ev& mat(const char *k, const std::vector<BV>& m) {
        key(k); s << '[';
        for (size_t j = 0; j < m.size(); j++) { if (j) s << ','; putVec(m[j]); }
        s << ']';
        return *this;
    }
    template<class T> Ev& ints(const char *k, const std::vector<T>& v) {
        key(k); s << '[';
        for (size_t j = 0; j < v.size(); j++) { if (j) s << ','; s << v[j]; }
        s << ']';
        return *this;
    }
    Ev& words(const char *k, const std::vector<u128>& v) {
        key(k); s << '[';
        for (size_t j = 0; j < v.size(); j++) { if (j) s << ','; putBits(v[j]); }
        s << ']';
        return *this;
    }
    // little-endian bytes of a word
    Ev& bytes(const char *k, u128 v, int nbytes) {
        key(k); s << '[';
        for (int j = 0; j < nbytes; j++) { if (j) s << ','; s << (int)((v >> (8 * j)) & 255); }
        s << ']';
        return *this;
    }
    Ev& bytesList(const char *k, const std::vector<u128>& v, int nbytes) {
        key(k); s << '[';
        for (size_t q = 0; q < v.size(); q++) {
            if (q) s << ',';
            s << '[';
            for (int j = 0; j < nbytes; j++) { if (j) s << ','; s << (int)((v[q] >> (8 * j)) & 255); }
            s << ']';
        }
        s << ']';
        return *this;
    }
    Ev& raw(const char *k, const std::string& json) { key(k); s << json; return *this; }
    std::string done() { return s.str() + "}"; }
private:
    std::ostringstream s;
    void key(const char *k) { s << ",\"" << k << "\":"; }
    void putBits(u128 v) {
        s << '[';
        bool first = true;
        for (int j = 0; j < 128; j++) if ((v >> j) & 1) { if (!first) s << ','; first = false; s << j; }
        s << ']';
    }
    void putVec(const BV& v) {
        s << '[';
        bool first = true;
        for (size_t j = v._Find_first(); j < v.size(); j = v._Find_next(j)) { if (!first) s << ','; first = false; s << j; }
        s << ']';
    }
};

// Spreads sessions over several trace files, each validated by its own TLC process.
// A session is a run of events that must stay together; weights balance the files.
class Log {
public:
    Log(const std::string& dir, int files) : w(files, 0.0), cur(0) {
        for (int i = 0; i < files; i++) {
            std::ostringstream n;
            n << dir << "/trace" << (i < 10 ? "0" : "") << i << ".ndjson";
            out.push_back(std::unique_ptr<std::ofstream>(new std::ofstream(n.str().c_str())));
        }
    }
    void session(double weight = 1) {
        cur = 0;
        for (size_t i = 1; i < w.size(); i++) if (w[i] < w[cur]) cur = i;
        w[cur] += weight;
    }
    void put(Ev& e) { *out[cur] << e.done() << "\n"; out[cur]->flush(); }
    // the call about to be made: kept in a side file so that a crash or hang can be attributed
private:
    std::vector<std::unique_ptr<std::ofstream> > out;
    std::vector<double> w;
    size_t cur;
};

struct Args {
    bool thorough;
    uint64_t seed;
    std::string dir;
    int files;
    std::string script;         // behaviours generated by TLC, if any
    Args(int argc, char **argv) : thorough(false), seed(1), dir("."), files(6) {
        if (argc > 1) thorough = std::string(argv[1]) == "thorough";
        if (argc > 2) seed = strtoull(argv[2], 0, 10);
        if (argc > 3) dir = argv[3];
        if (argc > 4) files = atoi(argv[4]);
        if (argc > 5) script = argv[5];
    }
};

// A behaviour: operations of four integers each, as printed by the generating specification.
struct Op {
    int v[4];
    int operator[](int i) const { return v[i]; }
};
typedef std::vector<Op> Beh;
inline std::vector<Beh> behaviours(const std::string& path) {
    std::vector<Beh> r;
    std::ifstream f(path.c_str());
    std::string line;
    while (std::getline(f, line)) {
        Beh b; Op o; int k = 0;
        size_t i = 0;
        while (i < line.size()) {
            if (isdigit((unsigned char)line[i]) || line[i] == '-') {
                size_t e = i + 1;
                while (e < line.size() && isdigit((unsigned char)line[e])) e++;
                o.v[k++] = atoi(line.substr(i, e - i).c_str());
                if (k == 4) { b.push_back(o); k = 0; }
                i = e;
            } else i++;
        }
        if (!b.empty()) r.push_back(b);
    }
    return r;
}

// The library prints a lot on standard output; drivers discard it.
struct Quiet {
    std::streambuf *oldc, *olde;
    std::ostringstream sink;
    struct Null : std::streambuf { int overflow(int c) { return c; } } null;
    Quiet() { oldc = std::cout.rdbuf(&null); olde = std::cerr.rdbuf(&null); }
    ~Quiet() { std::cout.rdbuf(oldc); std::cerr.rdbuf(olde); }
};

// ---------------------------------------------------------------- linear maps
inline bool dot(const BV& a, const BV& b) { return (a & b).count() & 1; }
inline BV mulv(const std::vector<BV>& M, const BV& s) {
    BV r;
    for (size_t i = 0; i < M.size(); i++) if (dot(M[i], s)) r.set(i);
    return r;
}
inline BV randVec(Rng& g, int n, int density = 50) {
    BV r;
    for (int i = 0; i < n; i++) if (g.below(100) < density) r.set(i);
    return r;
}
inline BV vecOf(uint64_t v) { BV r; for (int i = 0; i < 64; i++) if ((v >> i) & 1) r.set(i); return r; }
inline uint64_t lowOf(const BV& v) { uint64_t r = 0; for (int i = 0; i < 64; i++) if (v[i]) r |= UINT64_C(1) << i; return r; }
inline std::vector<BV> randMat(Rng& g, int n, int density = 50) {
    std::vector<BV> m(n);
    for (int i = 0; i < n; i++) m[i] = randVec(g, n, density);
    return m;
}
// row i of the companion matrix of p: multiplication by x on coefficient vectors
inline std::vector<BV> companion(const NTL::GF2X& p) {
    int n = (int)NTL::deg(p);
    std::vector<BV> m(n);
    for (int i = 0; i < n; i++) {
        if (i > 0) m[i].set(i - 1);
        if (NTL::IsOne(NTL::coeff(p, i))) m[i].set(n - 1);
    }
    return m;
}
inline std::vector<BV> mulMat(const std::vector<BV>& X, const std::vector<BV>& Y) {   // X*Y, rows
    std::vector<BV> r(X.size());
    for (size_t i = 0; i < X.size(); i++)
        for (size_t j = 0; j < Y.size(); j++) if (X[i][j]) r[i] ^= Y[j];
    return r;
}
inline bool invert(std::vector<BV> m, std::vector<BV>& inv) {
    int n = (int)m.size();
    inv.assign(n, BV());
    for (int i = 0; i < n; i++) inv[i].set(i);
    for (int c = 0; c < n; c++) {
        int p = -1;
        for (int r = c; r < n; r++) if (m[r][c]) { p = r; break; }
        if (p < 0) return false;
        std::swap(m[p], m[c]); std::swap(inv[p], inv[c]);
        for (int r = 0; r < n; r++) if (r != c && m[r][c]) { m[r] ^= m[c]; inv[r] ^= inv[c]; }
    }
    return true;
}
inline std::vector<BV> conjugate(Rng& g, const std::vector<BV>& M) {
    int n = (int)M.size();
    std::vector<BV> p, pi;
    do { p = randMat(g, n); } while (!invert(p, pi));
    return mulMat(mulMat(p, M), pi);
}
inline std::vector<BV> blockDiag(const std::vector<BV>& X, const std::vector<BV>& Y) {
    int n = (int)X.size();
    std::vector<BV> r(X);
    for (size_t i = 0; i < Y.size(); i++) r.push_back(Y[i] << n);
    return r;
}

// ---------------------------------------------------------------- polynomials (plain NTL)
inline NTL::GF2X polyOf(uint64_t v) {
    NTL::GF2X p;
    for (int i = 0; i < 64; i++) if ((v >> i) & 1) NTL::SetCoeff(p, i);
    return p;
}
inline NTL::GF2X randPoly(Rng& g, int deg) {   // exactly this degree
    NTL::GF2X p;
    for (int i = 0; i < deg; i++) if (g.coin()) NTL::SetCoeff(p, i);
    NTL::SetCoeff(p, deg);
    return p;
}
inline NTL::GF2X randIrred(Rng& g, int deg) {
    for (;;) {
        NTL::GF2X p = randPoly(g, deg);
        if (deg == 1 || NTL::IterIrredTest(p)) return p;
    }
}

} // namespace vf
#endif
