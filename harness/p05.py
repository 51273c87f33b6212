"""Coverage of a coverpoint or cross is the share of its regular bins that reached their threshold."""
import hlib as H

BOUNDS = ("one or two points per covergroup (coverpoint, cross, and the same inside a cover-instance) with 0-4 bins "
          "of symbolic kind and 0-8 bins (all hit: up to 1100) of fixed kinds; counts and thresholds: every non-negative integer per bin")
OUTSIDE = "more bins per point; negative counts or thresholds"
ASSUMPTIONS = ["counts and at-least thresholds are non-negative"]


def c(case, shape, **k):
    d = {"case": case, "shape": shape, "atl": "sym", "atl_lo": 0}
    d.update(k)
    return d


K3 = [H.BIN, H.IGN, H.ILL]
CONFIGS = {"quick": [
    c("cp0", {"bin": 0}),
    c("cp1", {"bin": 1}),
    c("cp2_kinds", {"bin": 2}, kinds="sym"),
    c("cp3_kinds", {"bin": 3}, kinds="sym", cost=5),
    c("cp5", {"bin": 5}, cost=4),
    c("cp7", {"bin": 7}, kinds=K3),
    c("cr0", {"cp": 1, "cr": 1, "xbin": 0, "bin": 0}),
    c("cr3_kinds", {"cp": 1, "cr": 1, "xbin": 3, "bin": 0}, xkinds="sym", cost=5),
    c("cr5", {"cp": 1, "cr": 1, "xbin": 5, "bin": 0}, cost=4),
    c("ci", {"bin": 1, "ci": 1, "cicp": 1, "cibin": 3}),
    c("ci_cr", {"bin": 0, "ci": 1, "cicp": 1, "cibin": 0, "cicr": 1, "cixbin": 3}, xkinds=[H.BIN, H.BIN, H.ILL]),
    c("two", {"cp": 2, "bin": 2, "cr": 1, "xbin": 2}, cost=4),
    c("two_inst", {"inst": 2, "cg": 2, "bin": 1, "cp": 1, "cr": 1}, cost=4),
    c("names", {"bin": 3}, sym=["bin"], kinds=[H.BIN, H.BIN, H.IGN]),
    c("same", {"cg": 1, "cp": 2, "bin": 2, "cr": 2, "xbin": 1, "ci": 1, "cicp": 1, "cicr": 1}, same=True, cost=4),
    c("xrep", {"cp": 1, "bin": 1, "cr": 2, "xbin": 2}, xrefs="rep"),
    c("samenm", {"bin": 4}, dup=["bin"]),
    c("api", {"bin": 2, "cr": 1, "xbin": 2}, api="next", kinds=[H.BIN, H.BIN]),
    c("api1", {"bin": 3, "cr": 1, "xbin": 2}, api="next", atl=1, kinds=[H.BIN, H.IGN, H.BIN, H.ILL]),
    c("many_bins", {"bin": 130, "cr": 1, "xbin": 130}, hit=True),
    c("many_kinds", {"bin": 130, "cr": 1, "xbin": 130}, hit=True, kinds=[H.BIN, H.IGN, H.BIN, H.ILL], xkinds=[H.BIN, H.ILL]),
    c("sub", {"inst": 1, "sub": 2, "depth": 2, "bin": 2, "cr": 1}, hit=True),
    c("all_hit", {"bin": list(range(1, 50)), "cr": 1, "xbin": 97}, cnt_lo=1, atl=1),
    c("all_hit_x", {"cp": 1, "cr": 1, "xbin": list(range(1, 50)), "ci": 1, "cibin": 98}, cnt_lo=1, atl=1),
    c("all_hit_big", {"bin": 1100, "cr": 1, "xbin": 1100}, cnt_lo=1, atl=1),
    c("words", H.ONE, sym=H.LEVELS, nm=H.WORDS, hit=True),
] + H.pairs(c, skip=["sub"], hit=True), "thorough": [
    c("cp8", {"bin": 8}, cost=9),
    c("cp4_kinds", {"bin": 4}, kinds="sym", cost=20),
    c("cr8", {"cp": 1, "cr": 1, "xbin": 8, "bin": 0}, cost=9),
    c("cr4_kinds", {"cp": 1, "cr": 1, "xbin": 4, "bin": 0}, xkinds="sym", cost=20),
    c("ci2", {"bin": 1, "ci": 2, "cicp": 2, "cibin": 2, "cicr": 1}, cost=20),
]}


def chk(S, r, spec, what):
    n, h = H.hits(S, spec.bins)
    if n == 0:
        S.check(S.close(r.coverage, 0), what + ": coverage without regular bins")
    else:
        S.check(S.close(r.coverage * n, 100 * h), what + ": coverage")
        S.check(S.implies(S.eq(h, n), r.coverage == 100), what + ": all hit is 100%")
        S.check(S.implies(S.not_(S.eq(h, n)), r.coverage < 100), what + ": not all hit is below 100%")
    S.check(S.and_(r.coverage >= 0, r.coverage <= 100), what + ": range")
    reg = [b for b in spec.bins if b.kind == H.BIN]
    S.check(len(r.bins) == len(reg), what + ": number of bins")
    for b, s in zip(r.bins, reg):
        hit = s.count >= s.at_least
        S.check(S.and_(S.implies(b.hit, hit), S.implies(hit, b.hit)), what + ": hit flag of a bin")
    S.observe(what, r.coverage)


def run(S, cfg):
    from ucis.report.coverage_report_builder import CoverageReportBuilder
    g = H.Gen(S, cfg)
    spec = g.db("d")
    if cfg.get("hit"):
        H.assume_hits(S, spec)
    rpt = CoverageReportBuilder.build(H.build(spec))
    cgs = [x for i in spec for x in i.cgs]
    S.check(len(rpt.covergroups) == len(cgs), "number of covergroups")
    for k, (r, s) in enumerate(zip(rpt.covergroups, cgs)):
        cg(S, r, s, "covergroup %d" % k)


def cg(S, r, s, what):
    S.check(len(r.coverpoints) == len(s.cps), what + ": number of coverpoints")
    S.check(len(r.crosses) == len(s.crs), what + ": number of crosses")
    S.check(len(r.covergroups) == len(s.insts), what + ": number of instances")
    for k, (a, b) in enumerate(zip(r.coverpoints, s.cps)):
        chk(S, a, b, what + "/coverpoint %d" % k)
    for k, (a, b) in enumerate(zip(r.crosses, s.crs)):
        chk(S, a, b, what + "/cross %d" % k)
    for k, (a, b) in enumerate(zip(r.covergroups, s.insts)):
        cg(S, a, b, what + "/instance %d" % k)
