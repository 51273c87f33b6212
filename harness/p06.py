"""Covergroup and overall coverage are weighted means of what they contain."""
import hlib as H

BOUNDS = ("up to 3 coverpoints / 2 crosses / 2 cover-instances per covergroup, up to 3 covergroups over up to 3 "
          "instances, 0-2 bins each; all weights (0 included) and counts: every non-negative integer")
OUTSIDE = "more points per covergroup, negative weights; exact reals instead of floating point (tolerance 1e-6)"
ASSUMPTIONS = ["weights are non-negative"]


def c(case, shape, **k):
    d = {"case": case, "shape": shape, "wt": "sym"}
    d.update(k)
    return d


G = ["cg"]
SLOW = ['inst2cg2f', 'inst3cg2', 'all', 'cg2cp2f', 'cg3f']
CONFIGS = {"quick": [
    c("cp1", {"cp": 1, "bin": 2}),
    c("cp2", {"cp": 2, "bin": 2}, cost=3),
    c("cp3", {"cp": 3, "bin": 1}, cost=3),
    c("cpcr", {"cp": 2, "bin": 1, "cr": 1, "xbin": 2}, wtl=["cp", "cr"], cost=3),
    c("cr2", {"cp": 1, "bin": 1, "cr": 2, "xbin": 1}, ways=1, wtl=["cp", "cr"], cost=3),
    c("cponly0", {"cp": 0}),
    c("emptycp", {"cp": 2, "bin": 0}),
    c("cronly", {"cp": 1, "bin": 0, "cr": 1, "xbin": 2}),
    c("cg2", {"cg": 2, "cp": 1, "bin": 1}),
    c("cg3", {"cg": 3, "cp": 1, "bin": 1}, wtl=G, cost=3),
    c("cg2cp2", {"cg": 2, "cp": 2, "bin": 1}, wtl=G, cost=5),
    c("inst2", {"inst": 2, "cg": 1, "cp": 1, "bin": 1}),
    c("inst3", {"inst": 3, "cg": 1, "cp": 1, "bin": 1}, wtl=["cg", "inst"]),
    c("inst2cg2", {"inst": 2, "cg": 2, "cp": 1, "bin": 1}, wtl=G, cost=5),
    c("ci", {"cp": 1, "bin": 1, "ci": 1, "cicp": 2, "cibin": 1}, wtl=["cp", "ci"], cost=2),
    c("ci2", {"cp": 1, "bin": 1, "ci": 2, "cicp": 1, "cibin": 1, "cicr": 1}, wtl=["ci", "cr"], cost=5),
    c("nocg", {"inst": 2, "cg": 0}),
    c("noinst", {"inst": 0}),
    c("optcg", {"inst": 2, "cg": 2, "cp": 1, "bin": 1}, opt=["cg"], wt=1),
    c("ign", {"cp": 2, "bin": 3}, kinds=[H.BIN, H.IGN, H.ILL]),
    c("same", {"inst": 1, "cg": 1, "cp": 1, "cr": 1, "ci": 1, "cicr": 1}, same=True, wtl=["cr"], cost=3),
    c("sub", {"inst": 1, "sub": 1, "depth": 2, "cp": 1, "bin": 1}, wtl=["cg"]),
    c("sub2", {"inst": 1, "cg": 0, "sub": 2, "cp": 1, "bin": 1}, wtl=["inst", "cg"]),
    c("sub_opt", {"inst": 1, "sub": 2, "cp": 1, "bin": 1}, opt=["sub"], wtl=["cg"]),
    c("words", H.ONE, sym=H.LEVELS, nm=H.WORDS, wt=1),
    c("dup", {"inst": 2, "cg": 1, "cp": 1, "bin": 1}, dup=["inst", "cg"], wtl=["cg"]),
    c("dup_cg", {"cg": 2, "cp": 1, "bin": 1}, dup=["cg"], wtl=["cg"]),
    c("dup_pt", {"cp": 2, "bin": 1, "cr": 2, "xbin": 1}, dup=["cp", "cr"], wtl=["cp", "cr"], ways=1, cost=3),
    c("dup_ci", {"cp": 1, "bin": 1, "ci": 2, "cicp": 1}, dup=["ci"], wtl=["ci", "cp"], cost=2),
    c("path_sub", {"inst": 2, "sub": 1, "cg": 1}, sym=["inst", "sub"], nm={"bare": True, "seq": {"inst": [1, 3], "sub": [3, 1]}}, wt=1),
    c("optcp", {"cg": 2, "cp": 1, "bin": 1}, opt=["cp"]),
] + H.nums(c, hit=True, wt_lo=1) + H.nums(lambda n, sh, **k: c("wt" + n, sh, **dict(k, wt=1)), hit=True), "thorough": [
    c("cp4", {"cp": 4, "bin": 1}, cost=20),
    c("cp3b2", {"cp": 3, "bin": 2}, cost=20),
    c("cp3cr2", {"cp": 2, "bin": 1, "cr": 2, "xbin": 1}, wtl=["cp", "cr"], cost=20),
    c("cg3f", {"cg": 3, "cp": 1, "bin": 1}, cost=20),
    c("cg2cp2f", {"cg": 2, "cp": 2, "bin": 1}, cost=20),
    c("inst2cg2f", {"inst": 2, "cg": 2, "cp": 1, "bin": 1}, cost=20),
    c("cg3cp2", {"cg": 3, "cp": 2, "bin": 1}, wtl=G, cost=30),
    c("inst3cg2", {"inst": 3, "cg": 2, "cp": 1, "bin": 1}, wtl=G, cost=30),
    c("all", {"inst": 2, "cg": 1, "cp": 1, "bin": 1, "cr": 1, "ci": 1, "cicp": 1}, wtl=["cg", "cr"], cost=30),
]}


def ck(S, got, items, what):
    """got * total weight == sum of coverage * weight; 0 when the total weight is 0."""
    num = 0
    den = 0
    for cov, w in items:
        num = num + cov * w
        den = den + w
    S.check(S.implies(S.eq(den, 0), S.close(got, 0)), what + ": coverage with no weight at all")
    S.check(S.implies(den > 0, S.close(got * den, num, 1e-6 * (1 + den) if not S.symbolic else 1e-6)),
            what + ": weighted mean")
    S.check(S.and_(got >= 0, got <= 100.0000001), what + ": range")
    S.observe(what, got)


def run(S, cfg):
    from ucis.report.coverage_report_builder import CoverageReportBuilder
    g = H.Gen(S, cfg)
    spec = g.db("d")
    if cfg.get("hit"):
        H.assume_hits(S, spec)
    rpt = CoverageReportBuilder.build(H.build(spec))
    cgs = [x for i in spec for x in i.cgs]
    S.check(len(rpt.covergroups) == len(cgs), "number of covergroups")
    for k in range(len(cgs)):
        cg(S, rpt.covergroups[k], cgs[k], "cg%d" % k)
    ck(S, rpt.coverage, [(r.coverage, s.weight) for r, s in zip(rpt.covergroups, cgs)], "overall")


def cg(S, r, s, what):
    S.check(len(r.coverpoints) == len(s.cps) and len(r.crosses) == len(s.crs) and
            len(r.covergroups) == len(s.insts), what + ": contents")
    items = [(H.pt_cov(S, p), p.weight) for p in s.cps + s.crs]
    ck(S, r.coverage, items, what)
    for k in range(len(s.insts)):
        cg(S, r.covergroups[k], s.insts[k], what + "i%d" % k)
