"""Merging one database is a faithful copy of it, with the same coverage percentages."""
import hlib as H

BOUNDS = ("one database, up to 3 items per level, symbolic names (U+0001..U+D7FF) at each level in turn, all bin kinds, "
          "crosses over 1-3 coverpoints; counts/thresholds/weights: every non-negative integer")
BOUNDS += H.BIGB
OUTSIDE = "larger databases, longer symbolic names"
ASSUMPTIONS = ["names are unique among siblings of one kind"]
W = {"lo": 1, "hi": 0xD7FF}


def c(case, shape, **k):
    d = {"case": case, "shape": shape, "atl": "sym", "wt": "sym"}
    d.update(k)
    return d


SLOW = ['report2']
CONFIGS = {"quick": [
    c("all", {"inst": 2, "cg": 2, "cp": 2, "bin": 2, "cr": 2, "xbin": 2, "ci": 2, "cicp": 2, "cibin": 2, "cicr": 1},
      kinds=[H.BIN, H.IGN], sym=["bin", "cibin"], nm=W),
    c("names", {"inst": 3, "cg": 2, "cp": 2, "cr": 2, "ci": 2, "cicp": 2, "cicr": 1},
      sym=["inst", "cg", "cp", "cr", "ci", "cicp", "cicr", "xbin", "cixbin"], nm=W),
    c("kinds", {"bin": 3}, kinds="sym"),
    c("xkinds", {"cp": 2, "cr": 1, "xbin": 3}, xkinds="sym"),
    c("ways", {"cp": 4, "cr": 3, "xbin": 2}, ways=3),
    c("ways1", {"cp": 2, "cr": 2, "xbin": 2}, ways=1),
    c("opt", {"inst": 2, "cg": 2, "cp": 1}, opt=["inst", "cg"]),
    c("opt2", {"cp": 2, "bin": 2}, opt=["cp", "bin"]),
    c("report", {"cp": 2, "bin": 2, "cr": 1, "ci": 1}, report=True, wt_lo=1),
    c("empty", {"inst": 0}),
    c("same", {"inst": 2, "cg": 2, "cp": 2, "bin": 2, "cr": 2, "xbin": 2, "ci": 2, "cicp": 2, "cibin": 2, "cicr": 2, "cixbin": 2}, same=True,
      kinds=[H.BIN, H.ILL], xkinds=[H.BIN, H.IGN]),
    c("xrefs", {"cp": 2, "cr": 1, "ci": 1, "cicp": 2, "cicr": 1}, xrefs="any"),
    c("long", {"inst": 2, "cg": 2, "cp": 2, "cr": 1, "ci": 2}, nm={"prefix": "n" * 300}),
    c("var", {"bin": 2, "cp": 2, "ci": 1}, sym=["bin", "cp"], nm=dict(W, var=[0, 1]), kinds=[H.IGN, H.ILL], cost=2),
    c("api", {"inst": 2, "cg": 2, "cp": 2, "bin": 2, "cr": 2, "xbin": 2, "ci": 2, "cicp": 2, "cibin": 2, "cicr": 2}, api="next", kinds=[H.BIN, H.IGN, H.BIN, H.ILL]),
    c("many_bins", {"cp": 1, "bin": 70, "cr": 1, "xbin": 70}),
    c("many", {"inst": 12, "cg": 2, "cp": 4, "ci": 2}),
    c("many_ci", {"cp": 12, "ci": 20, "cr": 12}),
    c("sub", {"inst": 2, "cg": 2, "sub": 2, "scg": 2, "depth": 2, "cr": 1, "ci": 1}, sym=["sub"], nm=W),
    c("words", H.ONE, sym=H.LEVELS, nm=H.WORDS),
] + H.pairs(c) + H.bigs(c), "thorough": [
    c("kinds4", {"bin": 4}, kinds="sym", cost=5),
    c("names3", {"inst": 3, "cg": 3, "cp": 3, "bin": 3, "cr": 3, "ci": 3, "cicp": 3, "cicr": 2},
      sym=["inst", "cg", "cp", "bin", "cr", "ci", "cicp", "cicr", "xbin", "cixbin"], nm=dict(W, n=2), cost=9),
    c("big", {"inst": 4, "cg": 4, "cp": 5, "bin": 12, "cr": 3, "xbin": 6, "ci": 4, "cicp": 3, "cibin": 4, "cicr": 2},
      kinds=[H.BIN, H.BIN, H.IGN, H.ILL], cost=9),
    c("report2", {"cg": 2, "cp": 2, "bin": 2, "cr": 1, "ci": 2}, report=True, wt_lo=1, cost=9),
]}


def run(S, cfg):
    from ucis.merge import DbMerger
    g = H.Gen(S, cfg)
    src = g.db("d")
    db = H.build(src)
    dst = H.new_db()
    DbMerger().merge(dst, [db])
    H.seq_records(S, H.db_records(S, dst), H.spec_records(src), "copy")
    if cfg.get("report"):
        from ucis.report.coverage_report_builder import CoverageReportBuilder
        a = H.report_records(S, CoverageReportBuilder.build(db))
        b = H.report_records(S, CoverageReportBuilder.build(dst))
        H.seq_close(S, b, a, "coverage of the copy")
