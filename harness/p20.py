"""Converting to XML does not change any reported coverage figure."""
import hlib as H
import ylib as Y

BOUNDS = ("databases without cover-instances (built through the API), and databases read from XML or YAML with up to 3 "
          "cover-instances; up to 3 coverpoints + 2 crosses per covergroup, 3 bins per point of every kind; symbolic "
          "counts, thresholds, names; fixed hit patterns or fully symbolic hits on small shapes; symbolic weights of points")
BOUNDS += H.BIGB
OUTSIDE = "larger databases; covergroups built through the API whose type data is not the sum of their instances"
ASSUMPTIONS = ["all bins of one point share one threshold (the format has one per point); in YAML "
               "documents the instances of a covergroup agree on it"]

X = {"lo": 33, "hi": 0xD7FF, "suffix": "z"}


def c(case, what, shape, **k):
    d = {"case": case, "what": what, "shape": shape, "atl": "sym", "atl_lo": 0}
    d.update(k)
    return d


K3 = [H.BIN, H.IGN, H.BIN, H.ILL]
CONFIGS = {"quick": [
    c("api_hits", "api", {"cp": 2, "bin": 2}),
    c("api_kinds", "api", {"cp": 1, "bin": 2, "cr": 1, "xbin": 1}, kinds="sym", cost=4),
    c("api_cross", "api", {"cp": 1, "bin": 1, "cr": 2, "xbin": 1}, wt="sym", wtl=["cp", "cr"], wt_lo=1),
    c("api_names", "api", {"cp": 2, "bin": 2}, sym=["cp"], nm=X, hitf=True),
    c("api_var", "api", {"cp": 1, "bin": 3}, sym=["bin"], nm={"lo": 33, "hi": 0xD7FF, "var": [0, 1]}, hitf=True, kinds=[H.IGN, H.ILL, H.BIN]),
    c("xml_names", "xml", {"ci": 2, "cicp": 1, "cibin": 2}, sym=["cibin"], nm={"lo": 33, "hi": 0xD7FF, "var": [0, 1]}, hitf=True, cost=2),
    c("api_zero_atl", "api", {"cp": 1, "bin": 2, "cr": 1, "xbin": 1}, atl=0),
    c("api_wide", "api", {"inst": 2, "cg": 2, "cp": 3, "bin": 4, "cr": 2, "xbin": 3}, kinds=K3, hitf=True),
    c("xml_ci", "xml", {"ci": 2, "cicp": 1, "cibin": 2}),
    c("xml_ci_kinds", "xml", {"ci": 1, "cicp": 1, "cibin": 2}, kinds="sym", cost=4),
    c("xml_cr", "xml", {"ci": 2, "cicp": 1, "cibin": 1, "cicr": 1, "cixbin": 1}),
    c("xml_wide", "xml", {"inst": 2, "ci": 3, "cicp": 2, "cibin": 3, "cicr": 1, "cixbin": 2}, kinds=K3, hitf=True),
    c("yaml_ci", "yaml", {"ci": 2, "cicp": 1, "cibin": 2, "cp": 0}),
    c("yaml_kinds", "yaml", {"ci": 1, "cicp": 1, "cibin": 2, "cp": 0}, kinds="sym", cost=4),
    c("yaml_cr", "yaml", {"ci": 2, "cicp": 1, "cibin": 1, "cicr": 1, "cixbin": 1, "cp": 0}),
    c("yaml_names", "yaml", {"ci": 2, "cicp": 1, "cibin": 2, "cp": 0}, sym=["cibin"], nm=X, hitf=True, cost=3),
    c("yaml_wide", "yaml", {"cg": 1, "ci": 3, "cicp": 2, "cibin": 3, "cicr": 1, "cixbin": 2, "cp": 0}, kinds=K3, hitf=True),
    c("api_sub", "api", {"inst": 1, "sub": 2, "depth": 2, "cp": 1, "bin": 2}, hitf=True),
    c("xml_sub", "xml", {"inst": 1, "sub": 2, "depth": 2, "ci": 2, "cicp": 1, "cibin": 2}, hitf=True),
    c("words", "api", {"cr": 1}, sym=H.LEVELS, nm=H.WORDS, hitf=True),
    c("words_xml", "xml", H.ONE, sym=H.LEVELS, nm=H.WORDS, hitf=True),
    c("words_yaml", "yaml", H.YONE, sym=H.YLEV, nm=H.WORDS, hitf=True),
] + H.pairs(lambda n, sh, **k: c("api_" + n, "api", dict(sh, ci=0), hitf=True, **k), skip=["ci", "cicp", "cibin", "cicr"]) + \
    H.pairs(lambda n, sh, **k: c("xml_" + n, "xml", sh, hitf=True, **k)) + \
    H.bigs(lambda n, sh, **k: c("api_" + n, "api", dict(sh, ci=0), hitf=True, **k), ["big_cibins", "big_ci", "big_cicp"]) + \
    H.bigs(lambda n, sh, **k: c("xml_" + n, "xml", sh, hitf=True, **k), ["big_ways", "big_ways130", "big_kinds"]) + \
    H.ypairs(lambda n, sh, **k: c("yaml_" + n, "yaml", sh, hitf=True, **k)) + \
    H.ybigs(lambda n, sh, **k: c("yaml_" + n, "yaml", dict(sh, ci=min(sh["ci"], 100) if sh["ci"] > 2 else 1), hitf=True, **k)), "thorough": [
    c("api3", "api", {"cp": 2, "bin": 3}, cost=20),
    c("api_kinds3", "api", {"cp": 1, "bin": 3}, kinds="sym", cost=20),
    c("xml_ci2", "xml", {"ci": 2, "cicp": 2, "cibin": 2}, cost=50),
    c("xml_ci3", "xml", {"ci": 3, "cicp": 1, "cibin": 2}, cost=50),
    c("yaml_ci3", "yaml", {"ci": 3, "cicp": 1, "cibin": 2, "cp": 0}, cost=50),
    c("yaml_names3", "yaml", {"ci": 2, "cicp": 1, "cibin": 2, "cp": 0}, sym=["cibin"], nm=X, cost=50),
]}


def common_atl(spec):
    """The instances of one covergroup agree on the threshold of a point."""
    for i in spec:
        for g in i.cgs:
            for ci in g.insts[1:]:
                for p, q in zip(ci.cps + ci.crs, g.insts[0].cps + g.insts[0].crs):
                    for b in p.bins:
                        b.at_least = q.bins[0].at_least


def build_rpt(db):
    from ucis.report.coverage_report_builder import CoverageReportBuilder
    return CoverageReportBuilder.build(db)


def run(S, cfg):
    spec = H.uniform_atl(H.Gen(S, cfg).db("d"))
    if cfg["what"] == "yaml":
        common_atl(spec)
    if cfg.get("hitf"):
        H.assume_hits(S, spec)
    if cfg["what"] == "yaml":
        db = Y.read(S, Y.doc(S, spec, {}))
    else:
        db = H.build(spec)
        if cfg["what"] == "xml":
            db = H.xml_read(S, H.xml_write(S, db, name="orig.xml"))
    a = build_rpt(db)
    db2 = H.xml_read(S, H.xml_write(S, db))
    b = build_rpt(db2)
    S.check(S.close(a.coverage, b.coverage), "total coverage")
    S.check(len(a.covergroups) == len(b.covergroups), "number of covergroups")
    for x, y in zip(a.covergroups, b.covergroups):
        cg(S, x, y, cfg["what"] == "api")
    S.observe("coverage", b.coverage)


def cg(S, x, y, api):
    S.check(S.eq(x.name, y.name), "covergroup name")
    S.check(S.close(x.coverage, y.coverage), "covergroup coverage")
    if not api:
        S.check(len(x.covergroups) == len(y.covergroups), "number of instances")
        for u, v in zip(x.covergroups, y.covergroups):
            cg(S, u, v, False)
    for p, q, w in ((x.coverpoints, y.coverpoints, "coverpoint"), (x.crosses, y.crosses, "cross")):
        S.check(len(p) == len(q), "number of " + w + "s")
        for u, v in zip(p, q):
            S.check(S.eq(u.name, v.name), w + " name")
            S.check(S.close(u.coverage, v.coverage), w + " coverage")
            bins(S, u.bins, v.bins, w)
            if w == "coverpoint":
                bins(S, u.ignore_bins, v.ignore_bins, w + " ignore")
                bins(S, u.illegal_bins, v.illegal_bins, w + " illegal")


def bins(S, a, b, w):
    S.check(len(a) == len(b), "number of %s bins" % w)
    for x, y in zip(a, b):
        S.check(S.and_(S.eq(x.name, y.name), S.eq(x.count, y.count), S.eq(x.goal, y.goal)), w + " bin")
