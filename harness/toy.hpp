// A user-defined generator: an arbitrary F2-linear machine with tempering parameters,
// implementing every generator interface of the library.
#ifndef VERIF_TOY_HPP
#define VERIF_TOY_HPP
#include "common.hpp"
#include <MTToolBox/ReducibleTemperingCalculatable.hpp>
#include <MTToolBox/TemperingCalculatable.hpp>
#include <MTToolBox/ReducibleGenerator.hpp>
#include <MTToolBox/ParameterGenerator.hpp>

namespace vf {

struct Lin {                 // st' = A st ; output bit b (from the LSB) = C[b] . st'
    int n;
    std::vector<BV> A, C, P; // P: rows of the certified word
    BV s0;                   // if not zero: the state every seeding leads to
    int tag;
    Lin() : n(0), tag(0) {}
};
typedef std::shared_ptr<std::vector<Lin> > Family;
inline Family single(const Lin& l) { return Family(new std::vector<Lin>(1, l)); }

// a scripted parameter source
class Script : public MTToolBox::ParameterGenerator {
public:
    std::vector<uint64_t> v;
    size_t at;
    Script() : at(0) {}
    explicit Script(const std::vector<uint64_t>& x) : v(x), at(0) {}
    uint64_t nextValue() { return at < v.size() ? v[at++] : (at++, 0); }
    uint32_t getUint32() { return (uint32_t)nextValue(); }
    uint64_t getUint64() { return nextValue(); }
    void seed(uint64_t) { at = 0; }
};

template<class U>
class Toy : public MTToolBox::ReducibleTemperingCalculatable<U> {
public:
    Family fam;
    int cur;
    BV st;
    int mexp;
    std::vector<int> shifts;      // tempering: y ^= (y << shifts[i]) & active[i]
    std::vector<u128> pat, active;
    bool latch;                   // setUpTempering needed for patterns to take effect
    bool rev;
    u128 parity;
    int setups;                   // parameter sets tried
    std::function<void(int, uint32_t)> onSetup;

    Toy(Family f, int mexp_ = 0) : fam(f), cur(0), mexp(mexp_), latch(false), rev(false), parity(0), setups(0) {}
    Toy(const Toy& o)
        : MTToolBox::AbstractGenerator<U>(), MTToolBox::RecursionSearchable<U>(),
          MTToolBox::EquidistributionCalculatable<U>(), MTToolBox::ReducibleGenerator<U>(),
          MTToolBox::TemperingCalculatable<U>(), MTToolBox::ReducibleTemperingCalculatable<U>(),
          fam(o.fam), cur(o.cur), st(o.st), mexp(o.mexp), shifts(o.shifts), pat(o.pat),
          active(o.active), latch(o.latch), rev(o.rev), parity(o.parity), setups(o.setups) {}
    void withTempering(const std::vector<int>& sh, bool latched) {
        shifts = sh; pat.assign(sh.size(), 0); active = pat; latch = latched;
    }
    const Lin& lin() const { return (*fam)[cur]; }
    static u128 full() { return width<U>() == 128 ? ~(u128)0 : (((u128)1 << width<U>()) - 1); }

    void step() { st = mulv(lin().A, st); }
    u128 rawOut() const {
        u128 y = 0;
        const std::vector<BV>& C = lin().C;
        for (size_t b = 0; b < C.size(); b++) if (dot(C[b], st)) y |= (u128)1 << b;
        for (size_t i = 0; i < active.size(); i++) y ^= ((y << shifts[i]) & full()) & active[i];
        return y;
    }
    // AbstractGenerator
    U generate() { step(); return wordOf<U>(rawOut()); }
    void seed(U v) {              // nonzero, depends on v
        uint64_t x = (uint64_t)bitsOf(v) * UINT64_C(0x9E3779B97F4A7C15) + 1;
        Rng g(x);
        if (lin().s0.any()) { st = lin().s0; return; }
        do { st = randVec(g, lin().n); } while (st.none());
    }
    int bitSize() const { return lin().n; }
    // RecursionSearchable
    void setUpParam(MTToolBox::ParameterGenerator& g) {
        uint32_t v = g.getUint32();
        cur = (int)(v % (uint32_t)fam->size());
        setups++;
        if (onSetup) onSetup(cur, v);
    }
    const std::string getHeaderString() { return "toy"; }
    const std::string getParamString() {
        std::ostringstream s; s << "toy" << cur; return s.str();
    }
    // EquidistributionCalculatable
    MTToolBox::EquidistributionCalculatable<U> * clone() const { return new Toy(*this); }
    U generate(int len) {
        step();
        u128 y = rawOut();
        if (rev) y = revBits(y, width<U>());
        u128 mask = len >= width<U>() ? full() : (full() & ~(full() >> len));
        return wordOf<U>(y & mask);
    }
    void add(MTToolBox::EquidistributionCalculatable<U>& that) {
        Toy *t = dynamic_cast<Toy *>(&that);
        if (t == 0) throw std::invalid_argument("type");
        st ^= t->st;
    }
    void setZero() { st.reset(); }
    bool isZero() const { return st.none(); }
    // TemperingCalculatable
    void setTemperingPattern(U mask, U pattern, int index) {
        u128 m = bitsOf(mask), p = bitsOf(pattern);
        pat[index] = (pat[index] & ~m) | (p & m);
        if (!latch) active[index] = pat[index];
    }
    void setUpTempering() { active = pat; }
    void setReverseOutput() { rev = true; }
    void resetReverseOutput() { rev = false; }
    bool isReverseOutput() { return rev; }
    // ReducibleGenerator
    void setOneBit(int b) { st.reset(); st.set(b); }
    U getParityValue() const {
        u128 y = 0;
        const std::vector<BV>& P = lin().P;
        for (size_t b = 0; b < P.size(); b++) if (dot(P[b], st)) y |= (u128)1 << b;
        return wordOf<U>(y);
    }
    void setParityValue(U p) { parity = bitsOf(p); }
    int getMexp() const { return mexp; }
private:
    Toy& operator=(const Toy&);
};

inline std::vector<BV> randRows(Rng& g, int w, int n) {
    std::vector<BV> r(w);
    for (int i = 0; i < w; i++) r[i] = randVec(g, n);
    return r;
}
// maximal-period-or-at-least-irreducible machine with conjugated companion transition
inline Lin irredMachine(Rng& g, int n, int w, bool conj = true) {
    Lin l; l.n = n;
    NTL::GF2X f;
    do { f = randIrred(g, n); } while (n == 1 && NTL::IsZero(NTL::coeff(f, 0)));
    l.A = companion(f);
    if (conj && n <= 200) l.A = conjugate(g, l.A);
    l.C = randRows(g, w, n);
    return l;
}

} // namespace vf
#endif
