PLANTS = []
def P(id, prop, edits, needs, breaks, demo):
    PLANTS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo.lstrip("\n")))
H = "include/MTToolBox/"
S = "samples/"
RUN = r'''
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include <sstream>
#include <iostream>
#include <getopt.h>
// runs the program with its standard output captured
static std::vector<std::vector<std::string> > sets(const std::vector<std::string>& args) {
    std::vector<std::string> a = args;
    std::vector<char *> v;
    for (auto& s : a) v.push_back(&s[0]);
    v.push_back(0);
    std::ostringstream cap;
    std::streambuf *old = std::cout.rdbuf(cap.rdbuf());
    optind = 0;
    prog_main((int)a.size(), v.data());
    std::cout.rdbuf(old);
    std::istringstream in(cap.str());
    std::string line;
    std::vector<std::vector<std::string> > r;
    while (std::getline(in, line)) {
        if (line.empty() || line.find(',') == std::string::npos || line.find('#') != std::string::npos) continue;
        std::istringstream ls(line); std::string x; std::vector<std::string> f;
        while (std::getline(ls, x, ',')) f.push_back(x);
        r.push_back(f);
    }
    return r;
}
static int fail(const char *w) { std::cerr << w << std::endl; return 1; }
'''
TINY = "// flags: -Isamples/TinyMTDC\n#define main prog_main\n#include \"samples/TinyMTDC/tinymt32dc.cpp\"\n#undef main\n#include \"samples/TinyMTDC/parse_opt.cpp\"\n" + RUN

P("C25-skipstart", "C25", [(S+"TinyMTDC/tinymt32dc.cpp", "Sequential<uint32_t> sq(0, opt.start);", "Sequential<uint32_t> sq(0, opt.start > 0 ? opt.start - 1 : 0);")],
  "tinymt32dc started (-s) at a candidate that itself qualifies", "the candidate at the start position is never looked at, so a qualifying set is left out",
TINY + r'''
int main() {
    // the largest candidate below 600 that qualifies
    for (uint32_t n = 600; n > 0; n--) {
        Sequential<uint32_t> one(0, n);
        tinymt32 g(77);
        AlgorithmRecursionSearch<uint32_t> rs(g, one);
        bool ok = false;
        try { ok = rs.start(1); } catch (std::underflow_error& e) { }
        if (!ok) continue;
        std::ostringstream st; st << n;
        std::vector<std::vector<std::string> > r = sets({"tinymt32dc", "-m", "1000", "-s", st.str(), "77"});
        std::string mine = g.getParamString();
        if (r.size() != 1) return fail("not one set");
        std::string theirs = r[0][1] + "," + r[0][2] + "," + r[0][3];
        if (mine.compare(0, theirs.size(), theirs) != 0) return fail("the set at the start position was left out");
        return 0;
    }
    return fail("no candidate");
}
''')
P("C25-maxzero", "C25", [(S+"TinyMTDC/tinymt32dc.cpp", "            if (delta > opt.max_delta) {\n                continue;", "            if (opt.max_delta && delta > opt.max_delta) {\n                continue;")],
  "tinymt32dc with -m 0", "the limit 0 on the defect is taken for no limit",
TINY + r'''
int main() {
    for (int id = 1; id < 4; id++) {
        std::ostringstream st; st << id;
        std::vector<std::vector<std::string> > r = sets({"tinymt32dc", "-m", "0", "-c", "6", st.str()});
        if (r.size() != 6) return fail("not as many sets as requested");
        for (auto& f : r) if (f.back() != "0") return fail("a set with a defect above the limit");
    }
    return 0;
}
''')
P("C25-rmtseed", "C25", [(S+"RMT/rmt64dc.cpp", "    MersenneTwister64 mt(opt.seed);", "    MersenneTwister64 mt(static_cast<uint32_t>(opt.seed));")],
  "two seeds of rmt64dc that differ above bit 31 only", "different seeds give the same parameter sets",
"// flags: -Isamples/RMT\n#define main prog_main\n#include \"samples/RMT/rmt64dc.cpp\"\n#undef main\n" + RUN + r'''
int main() {
    std::vector<std::vector<std::string> > a = sets({"rmt64dc", "-s", "5", "521"}), b = sets({"rmt64dc", "-s", "0x100000005", "521"}), c = sets({"rmt64dc", "-s", "5", "521"});
    if (a.size() != 1 || b.size() != 1 || a != c) return fail("not one set, or not reproducible");
    return a == b ? fail("another seed, the same set") : 0;
}
''')
P("C25-mtgpid", "C25", [(S+"MTGPDC/MTGP32dc.cpp", "    mtgp32 mtgp(opt.mexp, opt.id);", "    mtgp32 mtgp(opt.mexp, opt.id & 0x7fffffff);")],
  "MTGP32dc with an identifier of 2^31 or more", "the sets found carry another identifier than requested",
"// flags: -Isamples/MTGPDC\n#define main prog_main\n#include \"samples/MTGPDC/MTGP32dc.cpp\"\n#undef main\n#include \"samples/MTGPDC/parse_opt.cpp\"\n" + RUN + r'''
int main() {
    std::vector<std::vector<std::string> > a = sets({"MTGP32dc", "-s", "x", "3217", "2147483655"});
    if (a.size() != 1) return fail("not one set");
    for (auto& f : a[0]) if (strtoull(f.c_str(), 0, 10) == 2147483655ull) return 0;
    return fail("the identifier is not the one requested");
}
''')
P("C25-fixed", "C25", [(S+"dSFMTdc/dSFMTdc.cpp", "        g.setFixedSL1(opt.fixedSL1);", "        g.setFixedSL1(opt.fixedSL1 & 31);")],
  "dSFMTdc -x with an amount of 32 or more", "the sets found have another shift amount than the one fixed",
"// flags: -Isamples/dSFMTdc\n#define main prog_main\n#include \"samples/dSFMTdc/dSFMTdc.cpp\"\n#undef main\n#include \"samples/dSFMTdc/Annihilate.cpp\"\n#include \"samples/dSFMTdc/calc_fixpoint.cpp\"\n" + RUN + r'''
int main() {
    for (const char *x : {"19", "37"}) {
        std::vector<std::vector<std::string> > a = sets({"dSFMTdc", "-s", "1", (std::string("-x") + x).c_str(), "521"});
        if (a.size() != 1) return fail("not one set");
        if (a[0][2] != x) return fail("not the amount requested");
    }
    return 0;
}
''')
P("C25-secondparity", "C25", [(S+"sfmtdc/sfmtdc.cpp", "            cp.searchParity(g, irreducible);", "            static const GF2X factor = irreducible;\n            cp.searchParity(g, factor);")],
  "sfmtdc asked for two sets or more", "the parity of every set after the first belongs to another polynomial and certifies nothing",
"// flags: -Isamples/sfmtdc\n#define main prog_main\n#include \"samples/sfmtdc/sfmtdc.cpp\"\n#undef main\n#include \"samples/sfmtdc/Annihilate.cpp\"\n" + RUN + r'''
int main() {
    std::vector<std::vector<std::string> > a = sets({"sfmtdc", "-s", "3", "-c", "2", "607"});
    if (a.size() != 2) return fail("not two sets");
    MersenneTwister mt(3);
    sfmt g(607);
    AlgorithmReducibleRecursionSearch<w128_t> ars(g, mt);
    AlgorithmCalculateParity<w128_t, sfmt> cp;
    for (int i = 0; i < 2; i++) {
        if (!ars.start(607 * 100)) return fail("no set");
        GF2X irr = ars.getIrreducibleFactor();
        cp.searchParity(g, irr);
        std::string mine = g.getParamString(), theirs;
        for (size_t k = 0; k < 14; k++) theirs += a[i][k] + ",";
        if (mine != theirs) return fail("the parity is that of another polynomial");
    }
    return 0;
}
''')
