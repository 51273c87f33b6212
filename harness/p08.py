"""Text reports show exactly the report: one line per item, with its coverage and counts."""
import hlib as H

BOUNDS = ("up to 2 instances x 2 covergroups x 2 points x 3 bins with cover-instances, symbolic printable names "
          "(33..126) per level, every option (bin details, hits first, 0-4 digits); counts and thresholds: every "
          "non-negative integer; both text formatters")
BOUNDS += H.BIGB
OUTSIDE = "names containing line breaks; larger reports"
ASSUMPTIONS = ["names contain no line break"]


def c(case, shape, **k):
    d = {"case": case, "shape": shape, "atl": "sym", "details": True, "order": False}
    d.update(k)
    return d


CONFIGS = {"quick": [
    c("cov", {"cp": 2, "bin": 2, "cr": 1, "xbin": 1}, details=False, cost=3),
    c("cov3", {"cp": 1, "bin": 3, "cr": 1, "xbin": 3}, details=False, cost=3),
    c("cov_wt", {"cp": 2, "bin": 1, "cr": 1}, details=False, fixed_wt=[3, 7, 11]),
    c("cov_wts", {"cp": 2, "bin": 1}, details=False, wt="sym", wtl=["cp"], wt_lo=1, cost=2),
    c("var", {"cg": 1, "cp": 2, "bin": 2, "cr": 1}, hit=True, sym=["cp", "bin"], nm={"var": [0, 1]}),
    c("dbl_round", {"cp": 1, "bin": 3}, round=True, details=False),
    c("det", {"cp": 1, "bin": 3}, kinds=[H.BIN, H.IGN, H.ILL]),
    c("det2", {"cp": 2, "bin": 2, "cr": 1, "xbin": 1}, kinds=[H.BIN, H.BIN], cost=2),
    c("kinds", {"cp": 1, "bin": 2}, kinds="sym"),
    c("order", {"cp": 1, "bin": 3}, order=True),
    c("order_x", {"cp": 1, "bin": 1, "cr": 1, "xbin": 3}, order=True),
    c("order_ign", {"cp": 1, "bin": 4}, order=True, kinds=[H.IGN, H.ILL]),
    c("nest", {"cg": 2, "cp": 1, "bin": 1, "ci": 2, "cicp": 1}, hit=True),
    c("nest2", {"cg": 1, "cp": 2, "bin": 1, "ci": 1, "cicp": 2, "cicr": 1}, hit=True, order=True),
    c("insts", {"inst": 2, "cg": 2, "cp": 1, "bin": 1}, hit=True),
    c("names", {"cg": 2, "cp": 2, "bin": 2, "cr": 1, "ci": 1}, hit=True,
      sym=["cg", "cp", "bin", "cr", "xbin", "ci", "cicp", "cibin"]),
    c("long", {"cg": 1, "cp": 1, "bin": 1, "cr": 1, "ci": 1}, hit=True, nm={"prefix": "n" * 200}),
    c("pct", {"cg": 1, "cp": 1, "bin": 2, "cr": 1, "xbin": 1}, hit=True, nm={"n": 2, "alphabet": "%{}sd :"},
      sym=["cg", "cp", "bin", "cr", "xbin"]),
    c("empty", {"cp": 1, "bin": 0, "cr": 1, "xbin": 0, "ci": 1, "cicp": 0}),
    c("opt", {"cg": 2, "cp": 1, "bin": 1, "cr": 1, "ci": 1, "cicp": 1}, hit=True, opt=["cp", "cr", "ci"], cost=2),
    c("opt_ci", {"cg": 1, "cp": 1, "bin": 2, "ci": 2, "cicp": 1, "cicr": 1}, hit=True, opt=["cp", "cicp", "bin"], order=True, cost=2),
    c("none", {"inst": 0}),
    c("dup", {"inst": 2, "cg": 2, "cp": 2, "bin": 2, "cr": 2, "xbin": 2, "ci": 2, "cicp": 2, "cicr": 2}, hit=True,
      dup=["inst", "cg", "cp", "bin", "cr", "xbin", "ci", "cicp", "cicr", "cibin"]),
    c("dup_bins", {"cp": 2, "bin": 3, "cr": 1, "xbin": 2}, dup=["cp", "bin", "xbin"], hit=True, order=True),
    c("dup_lines", {"cp": 2, "bin": 1, "cr": 2, "xbin": 1, "ci": 2, "cicp": 0}, dup=["cp", "cr", "ci"], details=False),
    c("dup_empty", {"inst": 2, "cg": 2, "cp": 0}, dup=["inst", "cg"], details=False),
    c("round", {"cp": 1, "bin": 3}, round=True),
    c("big", {"cg": 3, "cp": 3, "bin": 6, "cr": 2, "xbin": 4, "ci": 2, "cicp": 2}, hit=True,
      kinds=[H.BIN, H.BIN, H.IGN, H.ILL]),
    c("same", {"inst": 1, "cg": 2, "cp": 2, "bin": 2, "cr": 2, "xbin": 2, "ci": 2, "cicp": 2, "cibin": 2, "cicr": 2, "cixbin": 2}, same=True, hit=True, kinds=[H.BIN, H.ILL], xkinds=[H.BIN, H.IGN]),
    c("zero", {"cp": 2, "bin": 2, "cr": 1, "xbin": 1}, atl_lo=0, cost=2),
    c("astral", {"cp": 1, "bin": 1, "cr": 1}, sym=["cp", "bin", "cr"], hit=True, nm={"lo": 0x10000, "hi": 0x10FFFF}),
    c("many_bins", {"cp": 1, "bin": 70, "cr": 1, "xbin": 70}, hit=True, order=True),
    c("many", {"cg": 12, "cp": 12, "cr": 2, "ci": 3}, hit=True),
    c("sub", {"inst": 1, "sub": 2, "depth": 2, "bin": 2}, hit=True, order=True),
    c("words", H.ONE, sym=H.LEVELS, nm=H.WORDS, hit=True),
] + H.pairs(c, skip=["sub", "inst"], ws=None, hit=True) + H.bigs(c, hit=True), "thorough": [
    c("cov_b5", {"cp": 1, "bin": 5, "cr": 1, "xbin": 2}, details=False, cost=9),
    c("cov_cp3", {"cp": 3, "bin": 2}, details=False, cost=9),
    c("order5", {"cp": 1, "bin": 5}, order=True, cost=9),
    c("kinds3", {"cp": 1, "bin": 3}, kinds="sym", order=True, cost=9),
    c("round6", {"cp": 2, "bin": 3}, round=True, cost=9),
    c("nest_free", {"cg": 1, "cp": 1, "bin": 2, "ci": 2, "cicp": 1, "cibin": 2}, cost=9),
]}


def blocks(S, spec):
    """Expected lines: (indent, kind, spec)"""
    out = []
    for i in spec:
        for g in i.cgs:
            _cg(out, g, 0, "TYPE")
    return out


def _cg(out, g, d, kind):
    out.append((d, kind, g))
    for p in g.cps:
        out.append((d + 1, "CVP", p))
    for x in g.crs:
        out.append((d + 1, "CROSS", x))
    for i in g.insts:
        _cg(out, i, d + 1, "INST")


def bin_lines(S, bins, ind, order):
    if order:
        # hits first, otherwise in database order
        h = [b for b in bins if S.truth(b.count >= b.at_least)]
        n = [b for b in bins if not S.truth(b.count >= b.at_least)]
        bins = h + n
    return [ind + b.name + " : " + S.num(b.count) for b in bins]


def check_text(S, text, spec, details, order, tol_cg, tol_pt, what, places=None):
    lines = S.lines(text)
    pos = 0
    for d, kind, it in blocks(S, spec):
        ind = "    " * d
        if pos >= len(lines):
            S.fail(what + ": report ends early")
            return
        ln = lines[pos]
        pos += 1
        head = ind + kind + " " + it.name + " : "
        ok = S.truth(S.starts(ln, head))
        S.check(ok, "%s: line %d does not start with %s" % (what, pos, kind))
        if not ok:
            return
        num = S.pct(ln, head)
        cov = H.cg_cov(S, it) if kind in ("TYPE", "INST") else H.pt_cov(S, it)
        tol = tol_cg if kind in ("TYPE", "INST") else tol_pt
        S.check(num is not None, "%s: line %d has no percentage" % (what, pos))
        if num is not None and places is not None:
            S.check(S.places(ln, head) == places, "%s: digits of the percentage of %s" % (what, kind))
        if num is not None:
            S.check(S.close(num, cov, tol + 1e-6), "%s: percentage of %s" % (what, kind))
        if details and kind in ("CVP", "CROSS"):
            secs = [("Bins:", [b for b in it.bins if b.kind == H.BIN], True)]
            if kind == "CVP":
                secs.append(("IgnoreBins:", [b for b in it.bins if b.kind == H.IGN], False))
                secs.append(("IllegalBins:", [b for b in it.bins if b.kind == H.ILL], False))
            for title, bs, always in secs:
                if not bs and not always:
                    continue
                exp = [ind + title] + bin_lines(S, bs, ind + "    ", order)
                for e in exp:
                    if pos >= len(lines):
                        S.fail(what + ": report ends early")
                        return
                    S.check(S.eq(lines[pos], e), "%s: line %d should be a %s line" % (what, pos + 1, title))
                    pos += 1
    S.check(pos == len(lines), what + ": extra lines")


def run(S, cfg):
    from ucis.report.coverage_report_builder import CoverageReportBuilder
    from ucis.report.text_coverage_report_formatter import TextCoverageReportFormatter
    from ucis.report.format_rpt_text import FormatRptText
    g = H.Gen(S, cfg)
    spec = g.db("d")
    if cfg.get("fixed_wt"):
        k = 0
        for i in spec:
            for x in i.cgs:
                for p in x.cps + x.crs:
                    p.weight = cfg["fixed_wt"][k % len(cfg["fixed_wt"])]
                    k += 1
    if cfg.get("hit"):
        H.assume_hits(S, spec)
    db = H.build(spec)
    rpt = CoverageReportBuilder.build(db)
    out = S.stream()
    f = TextCoverageReportFormatter(rpt, out)
    f.details = cfg["details"]
    f.order_bins_by_hit = cfg["order"]
    rnd = 2
    if cfg.get("round"):
        rnd = S.choice("round", [0, 1, 2, 3, 4])
        f.round = rnd
    f.report()
    t = 0.5 / 10 ** rnd
    check_text(S, S.text_of(out), spec, cfg["details"], cfg["order"], t, t, "text", rnd)
    out = S.stream()
    f = FormatRptText()
    f.details = cfg["details"]
    f.order_bins_by_hit = cfg["order"]
    f.report(db, out, None)
    check_text(S, S.text_of(out), spec, cfg["details"], cfg["order"], 0.005, 0.5, "txt format")
    # a second report by the same formatter is the same
    out2 = S.stream()
    f.report(db, out2, None)
    S.check(S.eq(S.text_of(out), S.text_of(out2)), "second report by the same formatter")
