"""Merging more results and hitting more bins never lowers coverage."""
import hlib as H

BOUNDS = ("2-3 sources of one design with up to 2 coverpoints + 1 cross (or cover-instances) of up to 3 bins; symbolic "
          "non-negative counts, common thresholds and weights, every bin kind; up to 2 increments of any bin by any "
          "non-negative amount")
BOUNDS += H.BIGB
OUTSIDE = "sources with different bins (their union may have lower coverage); larger databases"
ASSUMPTIONS = ["all sources have the same structure, thresholds and weights; counts are non-negative"]


def c(case, what, shape, **k):
    d = {"case": case, "what": what, "shape": shape, "atl": "sym", "atl_lo": 0}
    d.update(k)
    return d


CONFIGS = {"quick": [
    c("merge_cp", "merge", {"cp": 1, "bin": 2}, src=2, cost=2),
    c("merge_cp3", "merge", {"cp": 1, "bin": 1}, src=3),
    c("merge_cr", "merge", {"cp": 1, "bin": 1, "cr": 1, "xbin": 1}, src=2, cost=2),
    c("merge_kinds", "merge", {"cp": 1, "bin": 3}, src=2, kinds=[H.BIN, H.IGN, H.ILL]),
    c("merge_ci", "merge", {"ci": 1, "cibin": 1}, src=2, cost=2),
    c("merge_insts", "merge", {"inst": 2}, src=2, cost=2),
    c("merge_zero", "merge0", {"cp": 2, "bin": 1, "cr": 1}, src=2),
    c("merge_full", "full", {"cp": 2, "bin": 2, "cr": 1, "xbin": 2}, src=2),
    c("inc_cp", "inc", {"cp": 1, "bin": 3}, cost=2),
    c("inc_2pts", "inc", {"cp": 2, "bin": 1, "cr": 1}, cost=2),
    c("inc_kinds", "inc", {"cp": 1, "bin": 3}, kinds=[H.BIN, H.IGN, H.ILL]),
    c("inc_ci", "inc", {"ci": 1, "cibin": 2}),
    c("merge_sub", "merge", {"inst": 1, "sub": 1, "cp": 1, "bin": 1}, src=2, cost=2),
    c("merge_cr3", "merge", {"cp": 1, "bin": 0, "cr": 1, "xbin": 1}, src=3),
    c("merge_ci3", "merge", {"cp": 0, "ci": 1, "cicp": 1, "cicr": 1, "cixbin": 1, "cibin": 0}, src=3),
    c("words", "merge", {"cp": 1, "cr": 1}, src=2, sym=H.LEVELS, nm=H.WORDS, cnt_hi=1, atl=1),
    c("words_ci", "merge", {"cp": 0, "ci": 1, "cicr": 1}, src=2, sym=H.LEVELS, nm=H.WORDS, cnt_hi=1, atl=1),
    c("big_full", "full", {"cp": 1, "bin": 1100, "cr": 1, "xbin": 500}, src=1),
    c("big_full_src", "full1", {"cp": 1, "bin": 2, "cr": 1}, src=60),
    c("big_full_cp", "full", {"cp": 150, "cr": 100}, src=1),
    c("big_full_cg", "full", {"inst": 10, "cg": 15, "ci": 1}, src=1),
    c("big_full_kinds", "full", {"cp": 1, "bin": 420, "cr": 1, "xbin": 200}, src=1, kinds=[H.BIN, H.IGN, H.ILL]),
], "thorough": [
    c("merge_cp_3", "merge", {"cp": 1, "bin": 3}, src=2, cost=50),
    c("merge_src3", "merge", {"cp": 1, "bin": 2}, src=3, cost=50),
    c("merge_2cp", "merge", {"cp": 2, "bin": 2}, src=2, cost=90),
    c("inc5", "inc", {"cp": 1, "bin": 5}, cost=20),
    c("full_wide", "full", {"inst": 2, "cg": 2, "cp": 2, "bin": 3, "cr": 1, "ci": 1}, src=3, cost=20),
]}


def rpt(db):
    from ucis.report.coverage_report_builder import CoverageReportBuilder
    return CoverageReportBuilder.build(db)


def figures(r):
    """[(name, coverage)] of everything in the report, in order"""
    out = [("total", r.coverage)]

    def cg(g):
        out.append(("covergroup", g.coverage))
        for p in g.coverpoints:
            out.append(("coverpoint", p.coverage))
        for x in g.crosses:
            out.append(("cross", x.coverage))
        for i in g.covergroups:
            cg(i)
    for g in r.covergroups:
        cg(g)
    return out


def all_bins(spec):
    for i in spec:
        for g in i.cgs:
            for h in [g] + g.insts:
                for p in h.cps + h.crs:
                    for b in p.bins:
                        yield b


def named(spec):
    for i in spec:
        yield i
        for g in i.cgs:
            for h in [g] + g.insts:
                yield h
                for p in h.cps + h.crs:
                    yield p
                    for b in p.bins:
                        yield b


def sources(S, cfg):
    g = H.Gen(S, cfg)
    out = [g.db("d")]
    for k in range(1, cfg["src"]):
        g2 = H.Gen(S, dict(cfg, atl=1))
        s = g2.db("e%d" % k)
        for a, b in zip(all_bins(s), all_bins(out[0])):
            a.at_least = b.at_least
        for a, b in zip(named(s), named(out[0])):
            a.name = b.name
        out.append(s)
    return out


def ge(S, a, b, what):
    S.check(len(a) == len(b), what + ": number of figures")
    for (n, x), (_, y) in zip(a, b):
        S.check(x >= y - 1e-6, "%s: %s coverage decreased" % (what, n))
        S.check(S.and_(x >= 0, x <= 100 + 1e-6), "%s: %s coverage out of range" % (what, n))


def merged(dbs):
    from ucis.merge import DbMerger
    dst = H.new_db()
    DbMerger().merge(dst, dbs)
    return dst


def run(S, cfg):
    w = cfg["what"]
    if w == "inc":
        return inc(S, cfg)
    specs = sources(S, cfg)
    if w == "merge0":
        for s in specs[1:]:
            for b in all_bins(s):
                b.count = 0
    if w == "full1":
        # every bin reaches its threshold in the last source alone
        for b in all_bins(specs[-1]):
            S.assume(b.count >= b.at_least)
    if w == "full":
        # every bin reaches its threshold in some source
        for bs in zip(*[list(all_bins(s)) for s in specs]):
            S.assume(S.any([b.count >= b.at_least for b in bs]))
    dbs = [H.build(s) for s in specs]
    m = figures(rpt(merged(dbs)))
    if w in ("full", "full1"):
        for n, v in m:
            S.check(S.close(v, 100), n + " coverage is not 100% although every bin is covered by some source")
    else:
        for k, d in enumerate(dbs):
            ge(S, m, figures(rpt(d)), "merge with source %d" % k)
    if w == "merge0":
        for (n, x), (_, y) in zip(m, figures(rpt(dbs[0]))):
            S.check(S.close(x, y), "merging an empty run changed the %s coverage" % n)
    S.observe("coverage", m[0][1])


def inc(S, cfg):
    spec = H.Gen(S, cfg).db("d")
    db = H.build(spec)
    a = figures(rpt(db))
    items = db_items(db)
    k = S.choice("k", list(range(len(items))))
    n = S.int("amount", 0)
    items[k].incrementCover(n)
    b = figures(rpt(db))
    ge(S, b, a, "one increment")
    items[0].incrementCover()
    ge(S, figures(rpt(db)), b, "another increment")
    S.observe("coverage", b[0][1])


def db_items(db):
    from ucis.scope_type_t import ScopeTypeT as T
    out = []

    def cg(g):
        for p in g.scopes(T.COVERPOINT | T.CROSS):
            out.extend(list(p.coverItems(-1)))
        for i in g.scopes(T.COVERINSTANCE):
            cg(i)
    for i in db.scopes(T.INSTANCE):
        for g in i.scopes(T.COVERGROUP):
            cg(g)
    return out
