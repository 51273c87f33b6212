"""The object model returns what was stored: creation arguments, setters, properties, counters."""
import hlib as H

BOUNDS = ("two sibling trees with a design unit, design instance, covergroup, cover-instance, coverpoint and cross each; "
          "every integer (64-bit and beyond) as value of every writable property, through setters, properties and "
          "the C-style functions, in both orders and repeatedly; names: every 2-character text; up to 4 bins, 4 "
          "increments, 4 file handles, 3 history nodes")
OUTSIDE = ("string, real and handle properties (not implemented by the in-memory back end); read-only properties that "
           "are not implemented; removal of scopes (not implemented); longer symbolic names")
ASSUMPTIONS = ["flag-valued properties are set to 0 or 1"]


def c(case, what, **k):
    d = {"case": case, "what": what}
    d.update(k)
    return d


NUM = list(range(1, 15))
CONFIGS = {"quick": [
    c("create", "create"),
    c("create_capi", "create", capi=True),
    c("create_nosrc", "create", src=False),
    c("oo", "props", route="oo"),
    c("oo_rev", "props", route="oo", rev=True),
    c("prop", "props", route="prop"),
    c("prop_rev", "props", route="prop", rev=True),
    c("capi", "props", route="capi"),
    c("goal2", "props", route="prop", goal="COVER_GOAL"),
    c("twice", "props", route="prop", twice=True),
    c("mixed", "props", route="mixed", twice=True),
    c("flags_cg", "flags", on="cg"),
    c("flags_ci", "flags", on="ci"),
    c("flags_cp", "flags", on="cp"),
    c("flags_cr", "flags", on="cr"),
    c("flags_oo", "flags", on="cg", oo=True),
    c("bins", "bins", n=3),
    c("bins_cross", "bins", n=3, on="cr"),
    c("inc", "inc", n=2, m=3),
    c("inc_default", "inc", n=3, m=2, default=True),
    c("inc_cross", "inc", n=2, m=3, on="cr"),
    c("files", "files", n=3),
    c("files_dirs", "files", n=2, dirs=True),
    c("two_dbs", "files2", n=2),
    c("hist", "hist", n=2),
    c("hist_td", "hist", n=2, how="testdata"),
    c("hist_td_reuse", "hist", n=3, how="testdata", reuse=True),
    c("hist_td_reuse_capi", "hist", n=2, how="capi", reuse=True),
    c("hist_capi", "hist", n=2, how="capi"),
    c("hist_fine", "hist", n=1, den=1 << 40),
    c("hist_fine_td", "hist", n=1, den=1 << 40, how="testdata"),
    c("hist_status", "status"),
    c("many_bins", "bins", n=150),
    c("many_inc", "inc", n=70, m=150, turn=True),
    c("many_files", "files", n=40, fixed=True),
    c("many_hist", "hist", n=40),
    c("many_stmt", "stmt", n=100),
    c("many_shared", "shared", n=100),
    c("many_refs", "cross", n=3, many=[0, 70, 130]),
    c("many_kids", "kids", n=150),
    c("num_bins", "bins", n=NUM),
    c("num_kids", "kids", n=NUM),
    c("num_files", "files", n=NUM, fixed=True),
    c("num_hist", "hist", n=NUM),
    c("num_stmt", "stmt", n=NUM),
    c("num_shared", "shared", n=NUM),
    c("db", "db"),
    c("stmt", "stmt", n=3),
    c("cross", "cross", n=2),
    c("shared", "shared", n=3),
    c("shared_cross", "shared", n=3, on="cr"),
    c("shared_capi", "shared", n=3, capi=True),
], "thorough": [
    c("files4", "files", n=4, cost=9),
    c("inc4", "inc", n=3, m=4, cost=9),
    c("bins5", "bins", n=5, cost=5),
    c("hist4", "hist", n=4, cost=5),
    c("long", "create", n=6, cost=5),
]}


class T(object):
    pass


def name(S, tag, cfg):
    return S.name(tag, cfg.get("n", 2), lo=32, hi=0xD7FF)


def tree(S, cfg, db, tag, sym=True):
    """One of everything; returns [(label, scope, type, name, weight, source info)]."""
    import ucis
    from ucis.source_info import SourceInfo
    rows = []
    capi = cfg.get("capi")
    fh = db.createFileHandle("f%s.sv" % tag, None)

    def arg(k):
        n = name(S, tag + k, cfg) if sym else tag + k
        w = S.int("w" + tag + k) if sym else 1
        loc = None
        if cfg.get("src", True):
            loc = SourceInfo(fh, S.int("l" + tag + k) if sym else 1, S.int("t" + tag + k) if sym else 1)
        return n, loc, w

    def add(k, mk, typ):
        n, loc, w = arg(k)
        o = mk(n, loc, w)
        rows.append((k, o, typ, n, w, loc))
        return o
    U = ucis
    if capi:
        du = add("du", lambda n, l, w: U.ucis_CreateScope(db, None, n, l, w, U.UCIS_SV, U.UCIS_DU_MODULE, 0),
                 U.UCIS_DU_MODULE)
        inst = add("inst", lambda n, l, w: U.ucis_CreateInstance(db, None, n, l, w, U.UCIS_SV, U.UCIS_INSTANCE, du, 0),
                   U.UCIS_INSTANCE)
        sub = add("sub", lambda n, l, w: U.ucis_CreateInstance(db, inst, n, l, w, U.UCIS_SV, U.UCIS_INSTANCE, du, 0),
                  U.UCIS_INSTANCE)
        cg = add("cg", lambda n, l, w: U.ucis_CreateScope(db, inst, n, l, w, U.UCIS_SV, U.UCIS_COVERGROUP, 0),
                 U.UCIS_COVERGROUP)
        ci = add("ci", lambda n, l, w: U.ucis_CreateScope(db, cg, n, l, w, U.UCIS_SV, U.UCIS_COVERINSTANCE, 0),
                 U.UCIS_COVERINSTANCE)
        cp = add("cp", lambda n, l, w: U.ucis_CreateScope(db, cg, n, l, w, U.UCIS_SV, U.UCIS_COVERPOINT, 0),
                 U.UCIS_COVERPOINT)
        cp2 = add("cp2", lambda n, l, w: U.ucis_CreateScope(db, cg, n, l, w, U.UCIS_SV, U.UCIS_COVERPOINT, 0),
                  U.UCIS_COVERPOINT)
    else:
        du = add("du", lambda n, l, w: db.createScope(n, l, w, U.UCIS_SV, U.UCIS_DU_MODULE, 0), U.UCIS_DU_MODULE)
        inst = add("inst", lambda n, l, w: db.createInstance(n, l, w, U.UCIS_SV, U.UCIS_INSTANCE, du, 0),
                   U.UCIS_INSTANCE)
        sub = add("sub", lambda n, l, w: inst.createInstance(n, l, w, U.UCIS_SV, U.UCIS_INSTANCE, du, 0),
                  U.UCIS_INSTANCE)
        cg = add("cg", lambda n, l, w: inst.createCovergroup(n, l, w, U.UCIS_SV), U.UCIS_COVERGROUP)
        ci = add("ci", lambda n, l, w: cg.createCoverInstance(n, l, w, U.UCIS_SV), U.UCIS_COVERINSTANCE)
        cp = add("cp", lambda n, l, w: cg.createCoverpoint(n, l, w, U.UCIS_SV), U.UCIS_COVERPOINT)
        cp2 = add("cp2", lambda n, l, w: cg.createCoverpoint(n, l, w, U.UCIS_SV), U.UCIS_COVERPOINT)
    cr = add("cr", lambda n, l, w: cg.createCross(n, l, w, U.UCIS_SV, [cp2, cp]), U.UCIS_CROSS)
    t = T()
    t.rows, t.du, t.inst, t.sub, t.cg, t.ci, t.cp, t.cp2, t.cr, t.fh = rows, du, inst, sub, cg, ci, cp, cp2, cr, fh
    return t


def create(S, cfg):
    db = H.new_db()
    ts = [tree(S, cfg, db, t) for t in ("A", "B")]
    from ucis.scope_type_t import ScopeTypeT as ST
    for t in ts:
        for k, o, typ, n, w, loc in t.rows:
            S.check(S.eq(o.getScopeName(), n), k + ": name")
            S.check(S.eq(o.getWeight(), w), k + ": weight")
            S.check(o.getScopeType() == typ, k + ": type")
            if loc is not None:
                g = o.getSourceInfo()
                S.check(g.file is t.fh, k + ": source file")
                S.check(S.and_(S.eq(g.line, loc.line), S.eq(g.token, loc.token)), k + ": source position")
        S.check(t.inst.getInstanceDu() is t.du, "design unit")
        S.check(t.sub.getInstanceDu() is t.du, "design unit of a sub-instance")
        S.check(t.cr.getNumCrossedCoverpoints() == 2, "number of crossed coverpoints")
        S.check(t.cr.getIthCrossedCoverpoint(0) is t.cp2, "first crossed coverpoint")
        S.check(t.cr.getIthCrossedCoverpoint(1) is t.cp, "second crossed coverpoint")
        kids(S, t.cg, [t.ci, t.cp, t.cp2, t.cr], "covergroup")
        kids(S, t.inst, [t.sub, t.cg], "instance")
        kids(S, t.ci, [], "cover-instance")
    kids(S, db, [x for t in ts for x in (t.du, t.inst)], "database")


def kids(S, scope, exp, what):
    from ucis.scope_type_t import ScopeTypeT as ST
    got = list(scope.scopes(ST.ALL))
    S.check(len(got) == len(exp), what + ": number of children")
    for g, e in zip(got, exp):
        S.check(g is e, what + ": children")


# ---------------------------------------------------------------- integer properties
def table(S, cfg, t):
    """[(label, scope, property, setter name, getter name)]"""
    from ucis.int_property import IntProperty as I
    goal = getattr(I, cfg.get("goal", "SCOPE_GOAL"))
    out = []
    for k, o, typ, n, w, loc in t.rows:
        ps = [(I.SCOPE_WEIGHT, "Weight"), (goal, "Goal"), (I.SCOPE_SOURCE_TYPE, None)]
        if k in ("cg", "ci", "cp", "cp2", "cr"):
            ps += [(I.CVG_ATLEAST, "AtLeast"), (I.CVG_AUTOBINMAX, "AutoBinMax"), (I.CVG_STROBE, "Strobe")]
        out += [(k + "." + p.name, o, p, f) for p, f in ps]
    return out


def props(S, cfg):
    import ucis
    db = H.new_db()
    t, u = tree(S, cfg, db, "A", False), tree(S, cfg, db, "B", False)
    rows = table(S, cfg, t)
    other = table(S, cfg, u)
    before = [o.getIntProperty(-1, p) for _, o, p, _ in other]
    seq = [(r, S.int("v_%s" % r[0])) for r in rows]
    if cfg.get("rev"):
        seq.reverse()
    if cfg.get("twice"):
        seq = [(r, S.int("u_%s" % r[0])) for r in rows] + seq
    for k, ((lab, o, p, f), v) in enumerate(seq):
        route = cfg["route"]
        if route == "mixed":
            route = ["oo", "prop", "capi"][k % 3]
        if route == "oo" and f is not None:
            getattr(o, "set" + f)(v)
        elif route == "capi":
            ucis.ucis_SetIntProperty(db, o, -1, p, v)
        else:
            o.setIntProperty(-1, p, v)
    for (lab, o, p, f), v in (seq[len(rows):] if cfg.get("twice") else seq):
        S.check(S.eq(o.getIntProperty(-1, p), v), lab + " read back")
        S.check(S.eq(ucis.ucis_GetIntProperty(db, o, -1, p), v), lab + " read back through the C-style function")
        if f is not None:
            S.check(S.eq(getattr(o, "get" + f)(), v), lab + " read back through the getter")
    for (lab, o, p, f), v in zip(other, before):
        S.check(S.eq(o.getIntProperty(-1, p), v), lab + " of another scope changed")
    for k, o, typ, n, w, loc in t.rows:
        S.check(o.getScopeType() == typ, k + ": type changed")
        S.check(S.eq(o.getScopeName(), n), k + ": name changed")


def flags(S, cfg):
    from ucis.int_property import IntProperty as I
    db = H.new_db()
    t, u = tree(S, cfg, db, "A", False), tree(S, cfg, db, "B", False)
    o = getattr(t, cfg["on"])
    o2 = getattr(u, cfg["on"])
    ps = [(I.CVG_DETECTOVERLAP, "DetectOverlap")]
    if cfg["on"] in ("cg", "ci"):
        ps += [(I.CVG_PERINSTANCE, "PerInstance"), (I.CVG_MERGEINSTANCES, "MergeInstances")]
    before = [o2.getIntProperty(-1, p) for p, _ in ps]
    vs = []
    for p, f in ps:
        b = S.flag("f" + f)
        if cfg.get("oo"):
            getattr(o, "set" + f)(b)
        else:
            o.setIntProperty(-1, p, 1 if b else 0)
        vs.append(b)
    cm = name(S, "comment", cfg)
    cm2 = o2.getComment()
    o.setComment(cm)
    for (p, f), b, v2 in zip(ps, vs, before):
        S.check(o.getIntProperty(-1, p) == (1 if b else 0), f + " read back")
        S.check(bool(getattr(o, "get" + f)()) == b, f + " read back through the getter")
        S.check(o2.getIntProperty(-1, p) == v2, f + " of another scope changed")
    S.check(S.eq(o.getComment(), cm), "comment")
    S.check(S.eq(o2.getComment(), cm2), "comment of another scope")
    S.observe("flags", [1 if b else 0 for b in vs])


# ---------------------------------------------------------------- bins
def mkbins(S, cfg, t, how="bin"):
    from ucis.source_info import SourceInfo
    sc = getattr(t, cfg.get("on", "cp"))
    out = []
    for k in range(cfg["n"]):
        n = name(S, "b%d" % k, {"n": 2})
        cnt, al = S.int("c%d" % k), S.int("a%d" % k)
        loc = SourceInfo(t.fh, S.int("l%d" % k), S.int("t%d" % k))
        out.append((sc.createBin(n, loc, al, cnt, n, H.kind_val([H.BIN, H.IGN, H.ILL][k % 3])), n, cnt, al, loc, k))
    return sc, out


def chk_bins(S, rows, adds=None):
    for b, n, cnt, al, loc, k in rows:
        d = b.getCoverData()
        S.check(S.eq(b.getName(), n), "bin name")
        S.check(S.eq(d.data, cnt + (adds[k] if adds else 0)), "bin count")
        S.check(S.eq(d.at_least, al), "bin threshold")
        S.check(d.type == H.kind_val([H.BIN, H.IGN, H.ILL][k % 3]), "bin kind")
        g = b.getSourceInfo()
        S.check(S.and_(g.file is loc.file, S.eq(g.line, loc.line), S.eq(g.token, loc.token)), "bin source")


def bins(S, cfg):
    db = H.new_db()
    t = tree(S, cfg, db, "A", False)
    sc, rows = mkbins(S, cfg, t)
    chk_bins(S, rows)
    got = list(sc.coverItems(-1))
    S.check(len(got) == len(rows), "number of bins")
    for g, r in zip(got, rows):
        S.check(g is r[0], "order of bins")
    for o in (t.cg, t.ci, t.cp2) + (() if sc is t.cp else (t.cp,)) + (() if sc is t.cr else (t.cr,)):
        S.check(len(list(o.coverItems(-1))) == 0, "bins of another scope")


def inc(S, cfg):
    db = H.new_db()
    t = tree(S, cfg, db, "A", False)
    sc, rows = mkbins(S, cfg, t)
    adds = [0] * len(rows)
    for j in range(cfg["m"]):
        k = j % len(rows) if cfg.get("turn") else S.choice("w%d" % j, list(range(len(rows))))
        if cfg.get("default"):
            rows[k][0].incrementCover()
            adds[k] = adds[k] + 1
        else:
            v = S.int("d%d" % j)
            rows[k][0].incrementCover(v)
            adds[k] = adds[k] + v
    chk_bins(S, rows, adds)


def shared(S, cfg):
    """One CoverData object is filled in again for each bin, as the C examples do."""
    import ucis
    from ucis.source_info import SourceInfo
    db = H.new_db()
    t = tree(S, cfg, db, "A", False)
    sc = getattr(t, cfg.get("on", "cp"))
    d = ucis.CoverData(ucis.UCIS_CVGBIN, ucis.UCIS_IS_32BIT)
    S.check(S.eq(d.at_least, 1), "threshold of new data")
    rows = []
    for k in range(cfg["n"]):
        n, cnt, al, loc = "b%d" % k, S.int("c%d" % k), S.int("a%d" % k), SourceInfo(t.fh, k, 0)
        if k != 1:                              # the second bin is created with the data of the first
            d.data, d.at_least, d.type = cnt, al, H.kind_val([H.BIN, H.IGN, H.ILL][k % 3])
        else:
            cnt, al = rows[0][2], rows[0][3]
        if cfg.get("capi"):
            ucis.ucis_CreateNextCover(db, sc, n, d, loc)
        else:
            sc.createNextCover(n, d, loc)
        rows.append([None, n, cnt, al, loc, 0 if k == 1 else k])
    got = list(sc.coverItems(-1))
    S.check(len(got) == len(rows), "number of bins")
    for g, r in zip(got, rows):
        r[0] = g
    late = S.int("after")
    d.data = late
    adds = [S.int("d%d" % k) for k in range(len(rows))]
    for r, v in zip(rows, adds):
        r[0].incrementCover(v)
    for k, (b, n, cnt, al, loc, kk) in enumerate(rows):
        S.check(S.eq(b.getName(), n), "bin name")
        S.check(S.eq(b.getCoverData().data, cnt + adds[k]), "bin count")
        S.check(S.eq(b.getCoverData().at_least, al), "bin threshold")
        S.check(b.getCoverData().type == H.kind_val([H.BIN, H.IGN, H.ILL][kk % 3]), "bin kind")
    S.check(S.eq(d.data, late), "the caller's data")


def cross(S, cfg):
    """A cross keeps the points it was created with: in that order, each as often as it was named."""
    import ucis
    db = H.new_db()
    t = tree(S, cfg, db, "A", False)
    rows = []
    l = []
    for k in range(cfg["n"]):
        m = cfg["many"][k] if cfg.get("many") else S.choice("m%d" % k, [0, 1, 2, 3])
        # one list is filled in again for every cross
        del l[:]
        for j in range(m):
            l.append([t.cp, t.cp2][(j // 2) % 2 if cfg.get("many") else S.choice("r%d_%d" % (k, j), [0, 1])])
        x = t.cg.createCross("n%d" % k, None, 1, ucis.UCIS_SV, l)
        rows.append((x, list(l)))
    del l[:]
    for x, ps in rows:
        S.check(x.getNumCrossedCoverpoints() == len(ps), "number of crossed coverpoints")
        for j, p in enumerate(ps):
            S.check(x.getIthCrossedCoverpoint(j) is p, "crossed coverpoint %d" % j)
    kids(S, t.cg, [t.ci, t.cp, t.cp2, t.cr] + [x for x, _ in rows], "covergroup")


def many_kids(S, cfg):
    """Many children of every kind in one place."""
    import ucis
    db = H.new_db()
    t = tree(S, cfg, db, "A", False)
    n = cfg["n"]
    subs, cgs, cis, cps, crs, deep = [], [], [], [], [], []
    ws = [S.int("w%d" % k) for k in range(n)]
    at = t.inst
    for k in range(n):
        subs.append(t.inst.createInstance("n%d" % k, None, ws[k], ucis.UCIS_SV, ucis.UCIS_INSTANCE, t.du, 0))
        cgs.append(t.sub.createCovergroup("n%d" % k, None, ws[k], ucis.UCIS_SV))
        cis.append(t.cg.createCoverInstance("n%d" % k, None, ws[k], ucis.UCIS_SV))
        cps.append(t.ci.createCoverpoint("n%d" % k, None, ws[k], ucis.UCIS_SV))
        crs.append(cgs[0].createCross("n%d" % k, None, ws[k], ucis.UCIS_SV, []))
        if k < 40:
            at = at.createInstance("d%d" % k, None, ws[k], ucis.UCIS_SV, ucis.UCIS_INSTANCE, t.du, 0)
            deep.append(at)
    kids(S, t.inst, [t.sub, t.cg] + subs[:1] + deep[:1] + subs[1:], "instance")
    kids(S, t.sub, cgs, "sub-instance")
    kids(S, t.cg, [t.ci, t.cp, t.cp2, t.cr] + cis, "covergroup")
    kids(S, t.ci, cps, "cover-instance")
    kids(S, cgs[0], crs, "second covergroup")
    for k in range(len(deep) - 1):
        kids(S, deep[k], [deep[k + 1]], "nested instance")
    kids(S, deep[-1], [], "innermost instance")
    for l in (subs, cgs, cis, cps, crs, deep):
        for k, o in enumerate(l):
            S.check(S.eq(o.getWeight(), ws[k]), "weight")
            S.check(o.getScopeName() == ("d%d" if l is deep else "n%d") % k, "name")


# ---------------------------------------------------------------- the rest
def files(S, cfg):
    db = H.new_db()
    ns = [S.name("f%d" % k, 1, "dir/f", ".sv", lo=1, hi=0xD7FF) for k in range(cfg["n"])]
    if cfg.get("fixed"):
        ns = ["dir/f%d.sv" % (k * 7 % 30) for k in range(cfg["n"])]
    hs = [db.createFileHandle(n, ("/w%d" % k) if cfg.get("dirs") else None) for k, n in enumerate(ns)]
    for k in range(len(ns)):
        S.check(S.eq(hs[k].getFileName(), ns[k]), "file name")
        for j in range(k):
            same = S.eq(ns[k], ns[j])
            S.check(S.or_(S.and_(same, hs[k] is hs[j]), S.and_(S.not_(same), hs[k] is not hs[j])),
                    "one handle per file name")
    for k in range(len(ns)):
        S.check(db.createFileHandle(ns[k], None) is hs[k], "the handle is found again")


def files2(S, cfg):
    a, b = H.new_db(), H.new_db()
    n = S.name("f", 1, lo=1, hi=0xD7FF)
    x, y = a.createFileHandle(n, None), b.createFileHandle(n, None)
    S.check(x is not y, "handles belong to one database")
    t = tree(S, cfg, a, "A", False)
    kids(S, b, [], "second database")
    kids(S, a, [t.du, t.inst], "first database")
    b.createHistoryNode(None, "l", "p", 1)
    from ucis.history_node_kind import HistoryNodeKind as K
    S.check(len(list(a.historyNodes(K.ALL))) == 0, "history of the first database")


HF = ["SimTime", "TimeUnit", "RunCwd", "CpuTime", "Seed", "Cmd", "Args", "Compulsory", "Date", "UserName", "Cost",
      "ToolCategory", "VendorId", "VendorTool", "VendorToolVersion", "SameTests", "Comment"]
TD = [("ToolCategory", "toolcategory"), ("Date", "date"), ("SimTime", "simtime"), ("TimeUnit", "timeunit"),
      ("RunCwd", "runcwd"), ("CpuTime", "cputime"), ("Seed", "seed"), ("Cmd", "cmd"), ("Args", "args"),
      ("Compulsory", "compulsory"), ("UserName", "user"), ("Cost", "cost")]


def hist(S, cfg):
    import ucis
    from ucis.test_data import TestData
    from ucis.history_node_kind import HistoryNodeKind as K
    from ucis.test_status_t import TestStatusT as ST
    db = H.new_db()
    rows = []
    how = cfg.get("how")
    for k in range(cfg["n"]):
        ln, pn = name(S, "ln%d" % k, {}), name(S, "pn%d" % k, {})
        par = rows[0][0] if rows else None
        if how == "capi":
            h = ucis.ucis_CreateHistoryNode(db, par, ln, pn, K.TEST)
        else:
            h = db.createHistoryNode(par, ln, pn, K.TEST)
        vals = {}
        for f in HF:
            vals[f] = (S.real("%s%d" % (f, k), 0, 1000, cfg.get("den", 8)) if f in ("SimTime", "CpuTime", "Cost") else
                       S.int("%s%d" % (f, k)) if f == "SameTests" else
                       name(S, "%s%d" % (f, k), {"n": 1 + k % 2} if cfg.get("reuse") else {}))
        rows.append((h, ln, pn, vals, par))
    st = [ST.OK, ST.ERROR, ST.FATAL]
    one = None
    for k, (h, ln, pn, vals, par) in enumerate(rows):
        if how:
            td = TestData(st[k % 3], **dict((a, vals[f]) for f, a in TD)) if one is None else one
            if one is not None:
                # the caller fills in the same object again
                td.teststatus = st[k % 3]
                for f, a in TD:
                    setattr(td, a, vals[f])
            if cfg.get("reuse"):
                one = td
            if how == "capi":
                ucis.ucis_SetTestData(db, h, td)
            else:
                h.setTestData(td)
            for f in HF:
                if f not in [x for x, _ in TD]:
                    getattr(h, "set" + f)(vals[f])
        else:
            h.setTestStatus(st[k % 3])
            for f in HF:
                getattr(h, "set" + f)(vals[f])
    if one is not None:
        # ... and changes it afterwards
        one.teststatus = ST.WARNING
        for f, a in TD:
            setattr(one, a, S.real("late" + f, 0, 1000, 8) if f in ("SimTime", "CpuTime", "Cost") else
                    name(S, "late" + f, {"n": 1}))
    for k, (h, ln, pn, vals, par) in enumerate(rows):
        S.check(S.eq(h.getLogicalName(), ln), "logical name")
        S.check(S.eq(h.getPhysicalName(), pn), "physical name")
        S.check(h.getKind() == K.TEST, "kind")
        S.check(h.getParent() is par, "parent")
        S.check(h.getTestStatus() == st[k % 3], "status")
        for f in HF:
            S.check(S.eq(getattr(h, "get" + f)(), vals[f]), f)


def status(S, cfg):
    import ucis
    from ucis.int_property import IntProperty as I
    from ucis.test_status_t import TestStatusT as ST
    db = H.new_db()
    a, b = db.createHistoryNode(None, "a", "b", 1), db.createHistoryNode(None, "a", "b", 1)
    s = S.choice("s", [x for x in ST])
    s2 = S.choice("s2", [x for x in ST])
    if S.flag("capi"):
        ucis.ucis_SetIntProperty(db, a, -1, I.TEST_STATUS, int(s))
    else:
        a.setIntProperty(-1, I.TEST_STATUS, int(s))
    b.setTestStatus(s2)
    S.check(a.getTestStatus() == s, "status set as property")
    S.check(a.getIntProperty(-1, I.TEST_STATUS) == int(s), "status property")
    S.check(b.getTestStatus() == s2, "status set directly")
    S.check(b.getIntProperty(-1, I.TEST_STATUS) == int(s2), "status property of the other node")


def db_(S, cfg):
    a, b = H.new_db(), H.new_db()
    wb = b.getWrittenBy()
    wt = b.getWrittenTime()
    n, t = name(S, "by", cfg), S.int("at")
    a.setWrittenBy(n)
    a.setWrittenTime(t)
    S.check(S.and_(S.eq(a.getWrittenBy(), n), S.eq(a.getWrittenTime(), t)), "written by / at")
    S.check(S.and_(S.eq(b.getWrittenBy(), wb), S.eq(b.getWrittenTime(), wt)), "other database")
    S.check(S.eq(a.getAPIVersion(), "1.0"), "version")


def stmt(S, cfg):
    import ucis
    from ucis.int_property import IntProperty as I
    db = H.new_db()
    t = tree(S, cfg, db, "A", False)
    ix = [ucis.ucis_CreateNextCover(db, t.inst, "s%d" % k, ucis.CoverData(ucis.UCIS_STMTBIN, 0), None)
          for k in range(cfg["n"])]
    jx = [t.sub.createNextCover("s%d" % k, ucis.CoverData(ucis.UCIS_STMTBIN, 0), None) for k in range(cfg["n"])]
    vs = [S.int("v%d" % k) for k in range(cfg["n"])]
    us = [S.int("u%d" % k) for k in range(cfg["n"])]
    for i, v in zip(ix, vs):
        t.inst.setIntProperty(i, I.STMT_INDEX, v)
    for i, v in zip(jx, us):
        ucis.ucis_SetIntProperty(db, t.sub, i, I.STMT_INDEX, v)
    for i, v in zip(ix, vs):
        S.check(S.eq(t.inst.getIntProperty(i, I.STMT_INDEX), v), "statement index")
    for i, v in zip(jx, us):
        S.check(S.eq(t.sub.getIntProperty(i, I.STMT_INDEX), v), "statement index of the sub-instance")


def run(S, cfg):
    if isinstance(cfg.get("n"), list):
        cfg = dict(cfg, n=S.choice("number", cfg["n"]))
    {"create": create, "props": props, "flags": flags, "bins": bins, "inc": inc, "shared": shared, "cross": cross, "kids": many_kids, "files": files, "files2": files2,
     "hist": hist, "status": status, "db": db_, "stmt": stmt}[cfg["what"]](S, cfg)
