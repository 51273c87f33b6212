"""The coverage report mirrors the database."""
import hlib as H

BOUNDS = ("up to 3 instances/covergroups/points/cover-instances with symbolic names (printable ASCII) at every level, "
          "symbolic presence, all bin kinds; counts, thresholds and weights: every non-negative integer")
BOUNDS += H.BIGB
OUTSIDE = "larger databases; same-named covergroups in different instances share one lookup entry"
ASSUMPTIONS = ["names are unique among siblings of one kind"]


def c(case, shape, **k):
    d = {"case": case, "shape": shape, "atl": "sym", "wt": "sym", "wt_lo": 1, "atl_lo": 0, "hit": 1}
    d.update(k)
    return d


CONFIGS = {"quick": [
    c("all", {"inst": 1, "cg": 2, "cp": 2, "bin": 2, "cr": 2, "xbin": 2, "ci": 2, "cicp": 2, "cibin": 2, "cicr": 1,
              "cixbin": 2}),
    c("names", {"inst": 1, "cg": 2, "cp": 2, "bin": 2, "cr": 2, "ci": 2, "cicp": 2, "cicr": 1},
      sym=["cg", "cp", "bin", "cr", "xbin", "ci", "cicp", "cicr", "cibin", "cixbin"]),
    c("insts", {"inst": 3, "cg": 1, "cp": 2}, sym=["inst"]),
    c("insts_cg", {"inst": 2, "cg": 2, "cp": 1}, sym=["cg"], unique_cg=True),
    c("kinds", {"bin": 3}, kinds="sym"),
    c("kinds9", {"bin": 9}, kinds=[H.BIN, H.IGN, H.ILL]),
    c("bin_names", {"bin": 3, "cp": 1}, sym=["bin"], kinds=[H.IGN, H.ILL, H.BIN], hit=0, wt=1, nm={"var": [0, 1]}),
    c("free", {"bin": 2, "cp": 2, "cr": 1}, hit=0, wt=1, cost=5),
    c("xk", {"cp": 2, "cr": 1, "xbin": 3}, xkinds="sym"),
    c("zero_wt", {"inst": 1, "cg": 2, "cp": 1, "bin": 1, "cr": 1, "ci": 1}, wt_lo=0),
    c("opt", {"cg": 2, "cp": 2, "bin": 1}, opt=["cg", "cp"]),
    c("opt_insts", {"inst": 2, "cg": 2, "cp": 1, "ci": 1}, opt=["cp"], cost=2),
    c("opt_ci", {"cg": 1, "cp": 1, "cr": 1, "ci": 2, "cicp": 1}, opt=["cp", "ci", "cicp"], cost=2),
    c("optx", {"cp": 2, "cr": 2, "ci": 2}, opt=["cr", "ci"]),
    c("optb", {"bin": 3}, opt=["bin"]),
    c("long", {"cg": 2, "cp": 2, "cr": 1, "ci": 1}, nm={"prefix": "n" * 300}),
    c("wide", {"inst": 2, "cg": 4, "cp": 5, "bin": 6, "cr": 3, "xbin": 4, "ci": 4}, unique_cg=True),
    c("same", dict({"inst": 2, "cg": 2, "cp": 2, "bin": 2, "cr": 2, "xbin": 2, "ci": 2, "cicp": 2, "cibin": 2, "cicr": 2, "cixbin": 2}, inst=1), same=True, kinds=[H.BIN, H.ILL], xkinds=[H.BIN, H.IGN]),
    c("dup", {"inst": 2, "cg": 2, "cp": 2, "bin": 2, "cr": 2, "xbin": 2, "ci": 2, "cicp": 2, "cicr": 2},
      dup=["inst", "cg", "cp", "bin", "cr", "xbin", "ci", "cicp", "cicr", "cibin"]),
    c("dup_bins", {"cp": 2, "bin": 3, "cr": 1, "xbin": 3}, dup=["bin", "xbin", "cp"], sym=["bin", "xbin"]),
    c("dup_kinds", {"cp": 2, "bin": 6}, dup=["bin", "cp"], kinds=[H.BIN, H.IGN, H.ILL]),
    c("xrep", {"cp": 2, "cr": 2, "xbin": 2}, xrefs="rep"),
    c("api", {"inst": 2, "cg": 2, "cp": 2, "bin": 2, "cr": 2, "xbin": 2, "ci": 2, "cicp": 2, "cibin": 2, "cicr": 2}, api="next", unique_cg=True, kinds=[H.BIN, H.IGN, H.BIN, H.ILL]),
    c("many_bins", {"cp": 1, "bin": 70, "cr": 1, "xbin": 70}, kinds=[H.BIN, H.IGN, H.BIN, H.ILL]),
    c("many", {"inst": 1, "cg": 12, "cp": 12, "cr": 2, "ci": 3}),
    c("many_ci", {"cp": 2, "ci": 20, "cr": 12}),
    c("sub", {"inst": 2, "cg": 2, "sub": 2, "scg": 2, "depth": 2, "ci": 1, "cr": 1}, unique_cg=True),
    c("sub_opt", {"inst": 1, "sub": 2, "depth": 2}, opt=["sub"], cost=2, unique_cg=True),
    c("sub_deep", {"inst": 1, "sub": 1, "depth": 6}, unique_cg=True),
    c("sub_same", {"inst": 1, "sub": 2, "depth": 2, "ci": 1}, same=True, unique_cg=True),
    c("words", H.ONE, sym=H.LEVELS, nm=H.WORDS),
] + H.pairs(lambda n, sh, **k: c(n, sh, **dict(k, unique_cg=n.startswith("num_"))), skip=["sub"]) + \
    H.bigs(c, hit=True, unique_cg=True), "thorough": [
    c("kinds5", {"bin": 5}, kinds="sym", cost=20),
    c("opt3", {"inst": 2, "cg": 2, "cp": 1, "ci": 1}, opt=["inst", "cg", "ci"], unique_cg=True, cost=20),
    c("free2", {"bin": 2, "cp": 3, "cr": 2}, hit=0, wt=1, cost=20),
    c("names3", {"inst": 1, "cg": 3, "cp": 3, "bin": 3, "cr": 3, "ci": 3, "cicp": 2, "cicr": 2},
      sym=["cg", "cp", "bin", "cr", "xbin", "ci", "cicp", "cicr", "cibin", "cixbin"], cost=20),
]}


def run(S, cfg):
    from ucis.report.coverage_report_builder import CoverageReportBuilder
    g = H.Gen(S, cfg)
    spec = g.db("d")
    if cfg.get("unique_cg"):
        k = 0
        for i in spec:
            for x in i.cgs:
                x.name = "u%d_" % k + x.name
                k += 1
    if cfg["hit"]:
        H.assume_hits(S, spec)
    rpt = CoverageReportBuilder.build(H.build(spec))
    cgs = [x for i in spec for x in i.cgs]
    S.check(len(rpt.covergroups) == len(cgs), "every covergroup of every instance is reported")
    names = [x.name for x in cgs]
    for r, s in zip(rpt.covergroups, cgs):
        cg(S, r, s, "cg", cfg.get("dup"))
    if (len(spec) == 1 or cfg.get("unique_cg")) and not cfg.get("dup"):
        lookup(S, rpt.covergroup_m, rpt.covergroups, cgs, "covergroup")


def lookup(S, m, items, specs, what):
    S.check(len(m) == len(specs), what + " lookup size")
    for r, s in zip(items, specs):
        S.check(s.name in m and m[s.name] is r, what + " lookup by name")


def bins(S, got, spec, what):
    S.check(len(got) == len(spec), what + ": number of bins")
    for a, b in zip(got, spec):
        S.check(S.and_(S.eq(a.name, b.name), S.eq(a.count, b.count), S.eq(a.goal, b.at_least)), what + ": bin")


def cg(S, r, s, what, dup=None):
    S.check(S.eq(r.name, s.name), what + ": name")
    S.check(S.eq(r.instname, s.name), what + ": instance name")
    S.check(S.eq(r.weight, s.weight), what + ": weight")
    S.check(len(r.coverpoints) == len(s.cps), what + ": number of coverpoints")
    S.check(len(r.crosses) == len(s.crs), what + ": number of crosses")
    S.check(len(r.covergroups) == len(s.insts), what + ": number of instances")
    for a, b in zip(r.coverpoints, s.cps):
        S.check(S.eq(a.name, b.name), what + ": coverpoint name")
        S.check(S.eq(a.weight, b.weight), what + ": coverpoint weight")
        bins(S, a.bins, [x for x in b.bins if x.kind == H.BIN], what + "/cp bins")
        bins(S, a.ignore_bins, [x for x in b.bins if x.kind == H.IGN], what + "/cp ignore bins")
        bins(S, a.illegal_bins, [x for x in b.bins if x.kind == H.ILL], what + "/cp illegal bins")
    for a, b in zip(r.crosses, s.crs):
        S.check(S.eq(a.name, b.name), what + ": cross name")
        S.check(S.eq(a.weight, b.weight), what + ": cross weight")
        bins(S, a.bins, [x for x in b.bins if x.kind == H.BIN], what + "/cross bins")
    for a, b in zip(r.covergroups, s.insts):
        cg(S, a, b, what + "/inst", dup)
    if dup:                   # names that coincide have no lookup of their own
        return
    lookup(S, r.coverpoint_m, r.coverpoints, s.cps, "coverpoint")
    lookup(S, r.cross_m, r.crosses, s.crs, "cross")
    lookup(S, r.covergroup_m, r.covergroups, s.insts, "instance")
