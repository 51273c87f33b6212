"""Producing reports and files never changes the data, and gives the same result every time."""
import hlib as H

BOUNDS = ("databases with up to 2 items per level with cover-instances, symbolic counts, thresholds, weights of bins and "
          "points, kinds and names; sequences of two or three operations chosen among building a report, both text "
          "formatters with every option, JSON, writing XML, merging into another database, walking the database; one change between two "
          "rounds of operations (a count, threshold or weight, a new bin, point, covergroup or instance)")
BOUNDS += H.BIGB
OUTSIDE = "longer sequences; larger databases"
ASSUMPTIONS = ["the database is only modified where a configuration says so (mod_*, snapshot)"]

SH = {"cp": 2, "bin": 2, "cr": 1, "xbin": 2, "ci": 1}
KK = [H.BIN, H.IGN]


def c(case, ops, **k):
    d = {"case": case, "ops": ops, "shape": SH, "atl": "sym", "atl_lo": 0, "hitf": True, "kinds": [H.BIN, H.BIN, H.ILL]}
    d.update(k)
    return d


SLOW = ["all_wide"]
CONFIGS = {"quick": [
    c("build2", ["build", "build"]),
    c("build_free", ["build", "build"], hitf=False, shape={"cp": 1, "bin": 2, "cr": 1}),
    c("txt2", ["txt", "txt"]),
    c("txt_order", ["txto", "txt", "txto"]),
    c("txt_order_free", ["txto", "txt"], hitf=False, shape={"cp": 1, "bin": 3}),
    c("old2", ["oldo", "old", "oldo"]),
    c("json2", ["json", "json"]),
    c("json_txt", ["json", "txto", "json"]),
    c("txt_json", ["txto", "json", "txto"]),
    c("xml_rpt", ["xml", "build", "xml"]),
    c("rpt_xml", ["build", "xml", "build"]),
    c("merge_rpt", ["merge", "build", "merge"]),
    c("rpt_merge", ["build", "merge", "build"]),
    c("all", ["build", "txto", "oldo", "json", "xml", "merge", "walk"]),
    c("all_names", ["txto", "json", "xml", "merge", "build"], sym=["cp", "bin"], nm={"lo": 35, "hi": 126, "suffix": "z"}),
    c("all_kinds", ["txto", "json", "xml", "merge", "build"], kinds="sym", xkinds=[H.BIN, H.IGN],
      shape={"cp": 1, "bin": 2, "cr": 1, "xbin": 2}),
    c("all_insts", ["oldo", "json", "xml", "merge", "build"],
      shape={"inst": 2, "cg": 2, "cp": 2, "bin": 2, "cr": 1, "ci": 2}),
    c("object", ["oldo", "old"], on="report"),
    c("snapshot", ["build"], snap=True),
    c("snapshot_kinds", ["build"], snap=True, kinds=[H.BIN, H.IGN, H.ILL], xkinds=[H.BIN, H.IGN],
      shape={"cp": 1, "bin": 3, "cr": 1, "xbin": 2, "ci": 1, "cibin": 3, "cicr": 1, "cixbin": 2}),
    c("snapshot_add", ["build"], snap="add", kinds=[H.BIN, H.IGN, H.ILL]),
    c("sub_xml", ["build", "xml", "merge", "build", "xml"], shape={"inst": 1, "sub": 2, "depth": 2, "ci": 1}),
    c("words", ["build", "txto", "oldo", "json", "xml", "merge", "build"], shape=H.ONE, sym=H.LEVELS, nm=H.WORDS),
    c("mod_count", ["build", "txto", "oldo", "json", "xml", "merge"], mod="count", shape={"cp": 2, "bin": 2, "cr": 1}),
    c("mod_count_free", ["build", "json"], mod="count", hitf=False, kinds=[H.BIN], shape={"cp": 1, "bin": 2}),
    c("mod_bin", ["build", "txto", "oldo", "json", "xml", "merge"], mod="bin"),
    c("mod_point", ["build", "txto", "oldo", "json", "xml", "merge"], mod="point"),
    c("mod_group", ["build", "txto", "oldo", "json", "xml", "merge"], mod="group"),
    c("mod_inst", ["build", "txto", "oldo", "json", "xml", "merge"], mod="inst"),
    c("mod_weight", ["build", "txt", "json", "xml", "merge"], mod="weight"),
    c("mod_goal", ["build", "txto", "json", "merge"], mod="goal", hitf=False, kinds=[H.BIN], shape={"cp": 1, "bin": 2}),
    c("dup", ["build", "txto", "oldo", "json", "xml", "build"], shape={"inst": 2, "cg": 2, "cp": 2, "bin": 2, "cr": 2, "xbin": 2, "ci": 2, "cicp": 2, "cicr": 2},
      dup=["inst", "cg", "cp", "bin", "cr", "xbin", "ci", "cicp", "cicr", "cibin"]),
    c("big_bins", ["build", "txto", "oldo", "json", "xml", "merge", "build"], kinds=[H.BIN], shape={"cp": 1, "bin": 300, "cr": 1, "xbin": 200}),
    c("big_cp", ["build", "txto", "oldo", "json", "xml", "merge", "build"], shape={"cp": 100, "cr": 60}),
    c("big_ci", ["build", "txto", "oldo", "json", "xml", "merge", "build"], shape={"cp": 1, "ci": 100}),
    c("big_inst", ["build", "txto", "oldo", "json", "xml", "merge", "build"], shape={"inst": 40, "cg": 3}),
    c("big_deep", ["build", "txto", "oldo", "json", "xml", "merge", "build"], shape={"inst": 1, "sub": 1, "depth": 24}),
], "thorough": [
    c("all_free", ["build", "txto", "json", "build"], hitf=False, shape={"cp": 2, "bin": 2}, cost=20),
    c("all_wide", ["build", "txto", "oldo", "json", "xml", "merge", "build"],
      shape={"inst": 2, "cg": 2, "cp": 3, "bin": 4, "cr": 2, "ci": 2, "cicp": 2, "cibin": 3}, cost=20),
]}


def rpt(db):
    from ucis.report.coverage_report_builder import CoverageReportBuilder
    return CoverageReportBuilder.build(db)


def txt(S, db, order):
    from ucis.report.format_rpt_text import FormatRptText
    f = FormatRptText()
    f.details = True
    f.order_bins_by_hit = order
    s = S.stream()
    f.report(db, s, [])
    return S.text_of(s)


def old(S, report, order):
    from ucis.report.text_coverage_report_formatter import TextCoverageReportFormatter
    s = S.stream()
    f = TextCoverageReportFormatter(report, s)
    f.details = True
    f.order_bins_by_hit = order
    f.report()
    return S.text_of(s)


def walk(S, db):
    from ucis.scope_type_t import ScopeTypeT as T
    n = 0

    def rec(x):
        k = len(list(x.coverItems(-1)))
        for y in x.scopes(T.ALL):
            k += 1 + rec(y)
        return k
    return [rec(db)]


def do(S, op, db, tag):
    """-> ("recs", [...]) / ("text", text) / ("json", text)"""
    if op == "build":
        return "recs", H.rpt_records(S, rpt(db))
    if op in ("txt", "txto"):
        return "text", txt(S, db, op == "txto")
    if op in ("old", "oldo"):
        return "text", old(S, rpt(db), op == "oldo")
    if op == "json":
        from ucis.report.format_rpt_json import FormatRptJson
        s = S.stream()
        FormatRptJson().report(db, s, [])
        return "json", S.text_of(s)
    if op == "xml":
        p = H.xml_write(S, db, name=tag + ".xml")
        return "recs", H.db_records(S, H.xml_read(S, p))
    if op == "merge":
        from ucis.merge import DbMerger
        dst = H.new_db()
        DbMerger().merge(dst, [db])
        return "recs", H.db_records(S, dst)
    return "recs", [(["walk"], walk(S, db))]


def same(S, kind, a, b, what):
    if kind == "recs":
        H.seq_close(S, b, a, what)
    elif kind == "text":
        S.check(S.eq(a, b), what + ": different text")
    else:
        S.check(S.same_json(a, b), what + ": different JSON")


def run(S, cfg):
    spec = H.uniform_atl(H.Gen(S, cfg).db("d"))
    if cfg.get("hitf"):
        H.assume_hits(S, spec)
    db = H.build(spec)
    before = H.db_records(S, db)
    if cfg.get("mod"):
        return modified(S, cfg, spec, db)
    if cfg.get("on") == "report":
        return on_report(S, cfg, db, before)
    if cfg.get("snap"):
        r = rpt(db)
        a = H.rpt_records(S, r)
        if cfg["snap"] == "add":
            for k, m in enumerate(["bin", "point", "group", "inst", "weight"]):
                modify(S, dict(cfg, mod=m), spec, db)
        for i in cover_items(db):
            i.incrementCover(S.int("more%d" % len(a), 1))
            d = i.getCoverData()
            d.at_least = S.int("thr%d" % len(a), 0)
        H.seq_close(S, H.rpt_records(S, r), a, "a report already built changes when the database changes")
        return
    first = {}
    for k, op in enumerate(cfg["ops"]):
        kind, v = do(S, op, db, "o%d" % k)
        H.seq_records(S, H.db_records(S, db), before, "the database after " + op)
        if op in first:
            same(S, kind, first[op], v, "second " + op)
        else:
            first[op] = v
    S.observe("n", len(before))


def cover_items(db):
    from ucis.scope_type_t import ScopeTypeT as T

    def rec(x):
        out = list(x.coverItems(-1))
        for y in x.scopes(T.ALL):
            out += rec(y)
        return out
    return rec(db)


def modify(S, cfg, spec, db):
    """The same change in the database and in its description."""
    import ucis
    from ucis.scope_type_t import ScopeTypeT as T
    m = cfg["mod"]
    loc = None
    inst = list(db.scopes(T.INSTANCE))[0]
    cg = list(inst.scopes(T.COVERGROUP))[0]
    g = spec[0].own[0]
    pts = [p for i in spec for x in i.cgs for y in [x] + x.insts for p in y.cps + y.crs]
    if m == "count":
        bs = [b for p in pts for b in p.bins]
        its = cover_items(db)
        k = S.choice("which", list(range(len(bs))))
        d = S.int("more", 1)
        its[k].incrementCover(d)
        bs[k].count = bs[k].count + d
    elif m == "goal":
        its = cover_items(db)
        v = S.int("goal", 0)
        for b, i in zip(g.cps[0].bins, its):
            i.getCoverData().at_least = v
            b.at_least = v
    elif m == "bin":
        b = H.Bin("added", S.int("n_added", 0), g.cps[0].bins[0].at_least)
        if S.flag("cross"):
            b.at_least = g.crs[0].bins[0].at_least
            g.crs[0].bins.append(b)
            H.mkbin(list(cg.scopes(T.CROSS))[0], b, loc)
        else:
            g.cps[0].bins.append(b)
            H.mkbin(list(cg.scopes(T.COVERPOINT))[0], b, loc)
    elif m == "point":
        p = H.CP("added", [H.Bin("q", S.int("n_added", 0))], 1)
        g.cps.append(p)
        cp = cg.createCoverpoint(p.name, loc, 1, ucis.UCIS_SV)
        H.mkbin(cp, p.bins[0], loc)
    elif m == "group":
        x = H.CG("added", [H.CP("p", [H.Bin("q", S.int("n_added", 0))])])
        spec[0].own.append(x)
        H.build_cg(inst.createCovergroup(x.name, loc, 1, ucis.UCIS_SV), x, loc)
    elif m == "inst":
        i = H.Inst("added", [H.CG("g2", [H.CP("p", [H.Bin("q", S.int("n_added", 0))])])])
        spec.append(i)
        H.build([i], db)
    elif m == "weight":
        w = S.int("w", 0)
        if S.flag("group"):
            g.weight = w
            cg.setWeight(w)
        else:
            g.cps[0].weight = w
            list(cg.scopes(T.COVERPOINT))[0].setWeight(w)


def modified(S, cfg, spec, db):
    """After a change every operation gives what it gives for a new database with the same content."""
    for k, op in enumerate(cfg["ops"]):
        do(S, op, db, "w%d" % k)
    modify(S, cfg, spec, db)
    now = H.db_records(S, db)
    H.same_records(S, now, H.spec_records(spec), "the changed database")
    new = H.build(spec)
    for k, op in enumerate(cfg["ops"]):
        kind, a = do(S, op, new, "n%d" % k)
        kind, b = do(S, op, db, "c%d" % k)
        same(S, kind, a, b, op + " after a change")
        H.seq_records(S, H.db_records(S, db), now, "the database after " + op)
    S.observe("n", len(now))


def on_report(S, cfg, db, before):
    r = rpt(db)
    a = H.rpt_records(S, r)
    texts = {}
    for op in cfg["ops"] * 2:
        t = old(S, r, op == "oldo")
        H.seq_close(S, H.rpt_records(S, r), a, "the report object after " + op)
        if op in texts:
            S.check(S.eq(texts[op], t), "second text differs")
        texts[op] = t
    H.seq_records(S, H.db_records(S, db), before, "the database")
