"""What each check runs: driver, trace specification, models."""
CHECKS = {
    "C01": dict(driver="c01.cpp", trace="MachineTrace", sample_event="minpoly",
                mc=[dict(module="MCMachine", cfg="MCMachine.cfg")]),
}
CHECKS["C02"] = dict(driver="c02.cpp", trace="PolyTrace", sample_event="fprime",
    mc=[dict(module="MCPolyTheory", cfg="MCPolyTheory.cfg"), dict(module="MCPolyTheory", cfg="MCPolyTheoryL.cfg", thorough_only=True)])
CHECKS["C04"] = dict(driver="c04.cpp", trace="PolyTrace", sample_event="factor",
    mc=[dict(module="MCPolyTheory", cfg="MCPolyTheory.cfg"), dict(module="MCPolyTheory", cfg="MCPolyTheoryL.cfg", thorough_only=True)])
CHECKS["C03"] = dict(driver="c03.cpp", trace="FactorsTrace", sample_event="prime",
    mc=[dict(module="MCMersenne", cfg="MCMersenne.cfg"), dict(module="MCMersenne", cfg="MCMersenneL.cfg", thorough_only=True)])
_words = [dict(module="MCWords", cfg="MCWords.cfg"), dict(module="MCWords", cfg="MCWordsL.cfg", thorough_only=True)]
CHECKS["C18"] = dict(driver="c18.cpp", trace="WordsTrace", sample_event="chg", mc=_words)
CHECKS["C19"] = dict(driver=["c19.cpp", "c19b.cpp"], trace="WordsTrace", sample_event="chg", mc=_words)
CHECKS["C17"] = dict(driver="c17.cpp", trace="SequentialTrace", sample_event="read",
    mc=[dict(module="MCSequential", cfg="MCSequential.cfg"), dict(module="MCSequential", cfg="MCSequentialL.cfg", thorough_only=True)],
    generate=dict(module="GenSequential", cfg="GenSequential.cfg", num=150, num_thorough=1500, depth=45))
CHECKS["C16"] = dict(driver="c16.cpp", trace="MTTrace", sample_event="seed", files=8,
    mc=[dict(module="MCMT", cfg="MCMT.cfg"), dict(module="MCMT", cfg="MCMTL.cfg", thorough_only=True)],
    generate=dict(module="GenMT", cfg="GenMT.cfg", num=40, num_thorough=400, depth=14))
_search = [dict(module="MCSearch", cfg="MCSearch.cfg"), dict(module="MCSearch", cfg="MCSearchL.cfg", thorough_only=True)]
CHECKS["C05"] = dict(driver="c05.cpp", trace="SearchTrace", sample_event="end", mc=_search, files=8,
    generate=dict(module="GenSearch", cfg="GenSearch.cfg", num=60, num_thorough=600, depth=30))
CHECKS["C06"] = dict(driver="c06.cpp", trace="SearchTrace", sample_event="end", mc=_search, files=8,
    generate=dict(module="GenSearch", cfg="GenSearch.cfg", num=60, num_thorough=600, depth=30))
CHECKS["C07"] = dict(driver="c07.cpp", trace="CharpolyTrace", sample_event="chr", files=8,
    mc=[dict(module="MCCharpoly", cfg="MCCharpoly.cfg"), dict(module="MCCharpoly", cfg="MCCharpolyL.cfg", thorough_only=True)],
    generate=dict(module="GenCharpoly", cfg="GenCharpoly.cfg", num=160, num_thorough=1200, depth=12))
_equi = [dict(module="MCEqui", cfg="MCEqui.cfg"), dict(module="MCEqui", cfg="MCEquiL.cfg", thorough_only=True)]
CHECKS["C08"] = dict(driver="c08.cpp", trace="EquiTrace", sample_event="one", files=8, mc=_equi)
CHECKS["C09"] = dict(driver="c09.cpp", trace="EquiTrace", sample_event="one", files=8, mc=_equi,
    generate=dict(module="GenEqui", cfg="GenEqui.cfg", num=150, num_thorough=900, depth=16))
CHECKS["C10"] = dict(driver="c10.cpp", trace="EquiTrace", sample_event="part", files=8, mc=_equi)
_temper = [dict(module="MCTemper", cfg="MCTemper.cfg"), dict(module="MCTemper", cfg="MCTemperL.cfg", thorough_only=True)]
CHECKS["C11"] = dict(driver="c11.cpp", trace="TemperTrace", sample_event="block", files=8, mc=_temper)
CHECKS["C12"] = dict(driver="c12.cpp", trace="TemperTrace", sample_event="levels", files=8, mc=_temper)
CHECKS["C14"] = dict(driver="c14.cpp", trace="ParityTrace", sample_event="parity", files=8,
    mc=[dict(module="MCParity", cfg="MCParity.cfg"), dict(module="MCParity", cfg="MCParityL.cfg", thorough_only=True)])
CHECKS["C15"] = dict(driver="c15.cpp", trace="LintestTrace", sample_event="test", files=8,
    mc=[dict(module="MCLintest", cfg="MCLintest.cfg"), dict(module="MCLintest", cfg="MCLintestL.cfg", thorough_only=True)])
CHECKS["C13"] = dict(opt="-O2", driver="c13.cpp", trace="CombinedTrace", sample_event="report", files=8,
    mc=[dict(module="MCCombined", cfg="MCCombined.cfg"), dict(module="MCCombined", cfg="MCCombinedL.cfg", thorough_only=True)] + _temper)
CHECKS["C20"] = dict(opt="-O2", driver="c20.cpp", trace="LinObjTrace", sample_event="zero", files=8,
    mc=[dict(module="MCLinObj", cfg="MCLinObj.cfg"), dict(module="MCLinObj", cfg="MCLinObjL.cfg", thorough_only=True)],
    generate=dict(module="GenLin", cfg="GenLin.cfg", num=120, num_thorough=960, depth=22))
_simd = dict(trace="SimdTrace", sample_event="measure", files=8,
    mc=[dict(module="MCSimd", cfg="MCSimd.cfg"), dict(module="MCSimd", cfg="MCSimdL.cfg", thorough_only=True)],
    generate=dict(module="GenSimd", cfg="GenSimd.cfg", num=60, num_thorough=600, depth=12))
CHECKS["C21"] = dict(_simd, driver="c21.cpp", opt="-O2")
CHECKS["C22"] = dict(_simd, driver="c22.cpp", opt="-O2")
CHECKS["C24"] = dict(flags=["-fno-operator-names"], driver="c24.cpp", trace="XorShiftTrace", sample_event="seed", files=8, repo_sources=["samples/XORSHIFT/xorshift128.c"],
    mc=[dict(module="MCXorShift", cfg="MCXorShift.cfg"), dict(module="MCXorShift", cfg="MCXorShiftL.cfg", thorough_only=True)],
    generate=dict(module="GenXor", cfg="GenXor.cfg", num=150, num_thorough=1500, depth=14))
CHECKS["C23"] = dict(entry="calc_(parity|fixpoint)", opt="-O2", trace="CertifyTrace", sample_event="run", files=4,
    programs=[dict(driver="c23.cpp", repo_sources=["samples/sfmtdc/calc_parity.cpp", "samples/sfmtdc/Annihilate.cpp"], flags=["-I{repo}/samples/sfmtdc"]),
              dict(driver="c23d.cpp", repo_sources=["samples/dSFMTdc/calc_parity.cpp", "samples/dSFMTdc/calc_fixpoint.cpp", "samples/dSFMTdc/Annihilate.cpp"], flags=["-I{repo}/samples/dSFMTdc"])],
    mc=[dict(module="MCCertify", cfg="MCCertify.cfg"), dict(module="MCCertify", cfg="MCCertifyL.cfg", thorough_only=True)])
CHECKS["C26"] = dict(opt="-O1", driver="c26.cpp", trace="GeneratorsTrace", sample_event="gen", files=8,
    mc=[dict(module="MCGenerators", cfg="MCGenerators.cfg"), dict(module="MCGenerators", cfg="MCGeneratorsL.cfg", thorough_only=True)],
    generate=dict(module="GenGenerators", cfg="GenGenerators.cfg", num=110, num_thorough=1100, depth=18))
def _prog(n, d, *src):
    return dict(driver="c25.cpp", repo_sources=["samples/%s/%s" % (d, s) for s in src], flags=["-DPROG=%d" % n, "-I{repo}/samples/" + d])
CHECKS["C25"] = dict(opt="-O2", trace="ReportTrace", sample_event="print", files=4, driver_timeout=700,
    programs=[_prog(6, "MTGPDC", "parse_opt.cpp"), _prog(2, "RMT"), _prog(4, "sfmtdc", "Annihilate.cpp"), _prog(5, "dSFMTdc", "Annihilate.cpp", "calc_fixpoint.cpp"),
              _prog(3, "RMT"), _prog(1, "TinyMTDC", "parse_opt.cpp"), _prog(7, "XORSHIFT")],
    mc=[dict(module="MCReport", cfg="MCReport.cfg"), dict(module="MCReport", cfg="MCReportL.cfg", thorough_only=True)])
