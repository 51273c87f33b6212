"""The JSON report is a complete, parseable transcription of the coverage report."""
import hlib as H

BOUNDS = ("up to 2 instances/covergroups, 2 points, 3 bins, cover-instances and crosses, symbolic names over all "
          "characters U+0001..U+D7FF per level, all bin kinds; counts, thresholds and weights: every non-negative "
          "integer")
BOUNDS += H.BIGB
OUTSIDE = "larger databases"
ASSUMPTIONS = ["names are unique among siblings of one kind"]
W = {"lo": 1, "hi": 0xD7FF}


def c(case, shape, **k):
    d = {"case": case, "shape": shape, "atl": "sym", "hit": False}
    d.update(k)
    return d


CONFIGS = {"quick": [
    c("cov", {"cp": 2, "bin": 2}, cost=2),
    c("cov_x", {"cp": 1, "bin": 1, "cr": 1, "xbin": 2}),
    c("cov_wt", {"cp": 2, "bin": 1, "cr": 1}, wt="sym", wt_lo=1, cost=2),
    c("kinds", {"cp": 1, "bin": 2}, kinds="sym"),
    c("kinds6", {"cp": 1, "bin": 6}, kinds=[H.BIN, H.IGN, H.ILL], hit=True),
    c("nest", {"cg": 2, "cp": 2, "bin": 2, "cr": 1, "ci": 2, "cicp": 2, "cicr": 1}, hit=True),
    c("insts", {"inst": 2, "cg": 2, "cp": 1, "cr": 1}, hit=True),
    c("names", {"cg": 2, "cp": 2, "bin": 2, "cr": 2, "ci": 1, "cicp": 2}, hit=True, nm=W,
      sym=["cg", "cp", "bin", "cr", "xbin", "ci", "cicp", "cibin"]),
    c("esc", {"cp": 1, "bin": 2, "cr": 1}, hit=True, nm={"n": 2, "alphabet": "\"\\\n\t/\x7f\u00e9\u2028"},
      sym=["cg", "cp", "bin", "cr", "xbin"]),
    c("empty", {"cp": 1, "bin": 0, "cr": 1, "xbin": 0, "ci": 1, "cicp": 0}),
    c("nocp", {"cp": 0}),
    c("none", {"inst": 1, "cg": 0}),
    c("opt", {"cg": 2, "cp": 1, "cr": 1, "ci": 1}, opt=["cg", "cp", "ci"], ways=1, hit=True),
    c("nodetail", {"cp": 1, "bin": 2, "cr": 1, "ci": 1}, details=False, hit=True),
    c("big", {"cg": 3, "cp": 3, "bin": 5, "cr": 2, "xbin": 4, "ci": 3, "cicp": 2}, hit=True,
      kinds=[H.BIN, H.BIN, H.IGN, H.ILL]),
    c("same", {"inst": 1, "cg": 2, "cp": 2, "bin": 2, "cr": 2, "xbin": 2, "ci": 2, "cicp": 2, "cibin": 2, "cicr": 2, "cixbin": 2}, same=True, hit=True, kinds=[H.BIN, H.ILL], xkinds=[H.BIN, H.IGN]),
    c("zero", {"cp": 2, "bin": 2, "cr": 1, "xbin": 1}, atl_lo=0, cost=2),
    c("astral", {"cp": 1, "bin": 1, "cr": 1}, sym=["cp", "bin", "cr"], hit=True, nm={"lo": 0x10000, "hi": 0x10FFFF}),
    c("api", {"inst": 2, "cg": 2, "cp": 2, "bin": 2, "cr": 2, "xbin": 2, "ci": 2, "cicp": 2, "cibin": 2, "cicr": 2}, api="next", hit=True, kinds=[H.BIN, H.IGN, H.BIN, H.ILL]),
    c("many_bins", {"cp": 1, "bin": 70, "cr": 1, "xbin": 70}, hit=True),
    c("many", {"cg": 12, "cp": 12, "cr": 2, "ci": 3}, hit=True),
    c("dup", {"inst": 2, "cg": 2, "cp": 2, "bin": 2, "cr": 2, "xbin": 2, "ci": 2, "cicp": 2, "cicr": 2}, hit=True,
      dup=["inst", "cg", "cp", "bin", "cr", "xbin", "ci", "cicp", "cicr", "cibin"]),
    c("dup_bins", {"cp": 1, "bin": 3, "cr": 1, "xbin": 3}, dup=["bin", "xbin"], hit=True),
    c("dup_sym", {"cp": 2, "bin": 3, "cr": 1, "xbin": 2}, dup=["cp", "bin", "xbin"], sym=["cp", "bin", "xbin"], hit=True, nm={"lo": 33, "hi": 126}),
    c("dup_kinds", {"cp": 2, "bin": 6}, dup=["bin", "cp"], kinds=[H.BIN, H.IGN, H.ILL], hit=True),
    c("sub", {"inst": 1, "sub": 2, "depth": 2, "bin": 2}, hit=True),
    c("words", H.ONE, sym=H.LEVELS, nm=H.WORDS, hit=True),
] + H.pairs(c, skip=["sub"], hit=True) + H.bigs(c, hit=True), "thorough": [
    c("cov3", {"cp": 2, "bin": 3}, cost=9),
    c("cov_xci", {"cp": 1, "bin": 1, "cr": 1, "xbin": 2, "ci": 1, "cibin": 2}, cost=9),
    c("kinds4", {"cp": 1, "bin": 4}, kinds="sym", hit=True, cost=9),
    c("wts", {"cg": 2, "cp": 2, "bin": 1}, wt="sym", wt_lo=0, cost=9),
    c("names3", {"cg": 3, "cp": 3, "bin": 3, "cr": 3, "ci": 2, "cicp": 2}, hit=True, nm=W,
      sym=["cg", "cp", "bin", "cr", "xbin", "ci", "cicp", "cibin"], cost=9),
]}


def run(S, cfg):
    from ucis.report.coverage_report_builder import CoverageReportBuilder
    from ucis.report.format_rpt_json import FormatRptJson
    g = H.Gen(S, cfg)
    spec = g.db("d")
    if cfg["hit"]:
        H.assume_hits(S, spec)
    db = H.build(spec)
    out = S.stream()
    f = FormatRptJson()
    det = cfg.get("details", True)
    f.details = det
    f.report(db, out, None)
    text = S.text_of(out)
    doc = S.json_of(text)
    cgs = [x for i in spec for x in i.cgs]
    S.check(H.same_num(S, doc["coverage"], H.all_cov(S, spec)), "overall coverage")
    lst(S, doc, "covergroups", cgs, lambda a, b: cg(S, a, b, det, "cg"), "covergroups")
    rpt = CoverageReportBuilder.build(db)
    S.check(S.eq(doc["coverage"], rpt.coverage), "overall coverage is not the report's")
    exact(S, doc, rpt, "report")
    f2 = FormatRptJson()
    f2.details = det
    out2 = S.stream()
    f2.report(db, out2, None)
    S.check(S.same_json(text, S.text_of(out2)), "second report differs")


def lst(S, d, key, specs, fn, what):
    got = d[key] if key in d else []
    if got is None:
        got = []
    S.check(len(got) == len(specs), "%s: %d entries instead of %d" % (what, len(got), len(specs)))
    for a, b in zip(got, specs):
        fn(a, b)


def cg(S, d, s, det, what):
    S.check(S.eq(d["name"], s.name), what + " name")
    S.check(H.same_num(S, d["coverage"], H.cg_cov(S, s)), what + " coverage")
    lst(S, d, "coverpoints", s.cps, lambda a, b: pt(S, a, b, det, "coverpoint"), what + " coverpoints")
    lst(S, d, "crosses", s.crs, lambda a, b: pt(S, a, b, det, "cross"), what + " crosses")
    lst(S, d, "covergroups", s.insts, lambda a, b: cg(S, a, b, det, "inst"), what + " instances")


def exact(S, d, r, what):
    """the figures are the report object's own, not rounded"""
    for key in ("covergroups", "coverpoints", "crosses"):
        got = d[key] if key in d and d[key] is not None else []
        for a, b in zip(got, getattr(r, key, [])):
            S.check(S.eq(a["coverage"], b.coverage), "%s/%s: coverage is not the report's" % (what, key))
            exact(S, a, b, what + "/" + key)


def pt(S, d, s, det, what):
    S.check(S.eq(d["name"], s.name), what + " name")
    S.check(H.same_num(S, d["coverage"], H.pt_cov(S, s)), what + " coverage")
    for key, kind in (("bins", H.BIN), ("ignorebins", H.IGN), ("illegalbins", H.ILL)):
        if what == "cross" and kind != H.BIN:
            continue
        lst(S, d, key, [b for b in s.bins if b.kind == kind] if det else [],
            lambda a, b: bn(S, a, b, what + " " + key), what + " " + key)


def bn(S, d, b, what):
    S.check(S.eq(d["name"], b.name), what + " name")
    S.check(S.eq(d["count"], b.count), what + " count")
    S.check(S.eq(d["goal"], b.at_least), what + " goal")
