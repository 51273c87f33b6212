"""Iteration by mask yields exactly the matching items, in creation order."""
import hlib as H

BOUNDS = ("up to 6 child scopes / bins / history nodes; every one-bit scope and cover type and every mask as 64-bit "
          "values; up to 130 items of fixed types; up to 3 interleaved iterators over the same list; items added between two iterations")
OUTSIDE = "more items; adding items while an iterator is under way; code-coverage items of design instances (not iterable)"
ASSUMPTIONS = ["every scope and every cover item has exactly one type bit (as in the UCIS standard)"]


def c(case, what, n, **k):
    d = {"case": case, "what": what, "n": n}
    d.update(k)
    return d


NUM = list(range(1, 19))
SLOW = ['api7']
CONFIGS = {"quick": [
    c("scopes0", "scopes", 0),
    c("scopes1", "scopes", 1),
    c("scopes4", "scopes", 4),
    c("scopes_named", "scopes", 3, named=True),
    c("scopes_all", "scopes", 4, mask="all"),
    c("scopes_nested", "scopes", 3, nested=True),
    c("api_kinds", "api", 4),
    c("items0", "items", 0),
    c("items4", "items", 4),
    c("items_cross", "items", 4, scope="cross"),
    c("items_cg", "items", 3, scope="cg"),
    c("items_bins", "bins", 3),
    c("items_xbins", "bins", 3, scope="cross"),
    c("two_iters", "inter", 3),
    c("two_iters_items", "inter_items", 3),
    c("grow", "grow", 3),
    c("grow_items", "grow_items", 3),
    c("hist3", "hist", 3),
    c("hist4", "hist", 4),
    c("hist_inter", "hist_inter", 3),
    c("hist_none", "hist", 3, none=True),
    c("hist_inter_none", "hist_inter", 2, none=True),
    c("many_scopes", "scopes", 150, turn=[1, 2, 8, 64, 1 << 20, 1 << 30]),
    c("many_items", "items", 150, turn=[1, 2, 4, 1 << 19, 1 << 31]),
    c("many_inter", "inter", 30, turn=[1, 2, 8], steps=3),
    c("many_inter_items", "inter_items", 30, turn=[1, 2, 8], steps=3),
    c("many_grow", "grow", 100, turn=[1, 2, 8, 64]),
    c("many_grow_items", "grow_items", 100, turn=[1, 2, 4]),
    c("many_hist", "hist", 90, turn=True),
    c("many_kinds", "api", 60, turn=True),
    c("many_bins", "bins", 90, turn=True),
    c("num_scopes", "scopes", NUM, turn=[1, 2, 8, 64, 1 << 20], nums=True),
    c("num_items", "items", NUM, turn=[1, 2, 1 << 19]),
    c("num_bins", "bins", NUM, turn=True),
    c("num_xbins", "bins", NUM, turn=True, scope="cross"),
    c("num_kinds", "api", NUM, turn=True),
    c("num_hist", "hist", NUM, turn=True),
    c("num_inter", "inter", NUM, turn=[1, 2], steps=2),
    c("num_inter_items", "inter_items", NUM, turn=[1, 2], steps=2),
    c("num_grow", "grow", NUM, turn=[1, 8]),
    c("num_grow_items", "grow_items", NUM, turn=[1, 1 << 19]),
    c("lone_scope", "scopes", 150, turn=[64, 8], lone=True),
    c("lone_item", "items", 150, turn=[1, 1 << 19], lone=True),
    c("lone_bin", "bins", 150, turn=True, lone=True),
    c("lone_xbin", "bins", 150, turn=True, lone=True, scope="cross"),
    c("lone_kind", "api", 100, turn=True, lone=True),
    c("lone_hist", "hist", 90, turn=True, lone=True),
    c("lone_grow", "grow", 100, turn=[1, 8], lone=True),
    c("lone_grow_items", "grow_items", 100, turn=[1, 1 << 19], lone=True),
], "thorough": [
    c("scopes6", "scopes", 6, cost=9),
    c("items6", "items", 6, cost=9),
    c("api7", "api", 7, cost=20),
    c("hist6", "hist", 6, cost=9),
    c("inter4", "inter", 4, cost=9),
    c("inter_items4", "inter_items", 4, cost=9),
    c("grow5", "grow", 5, cost=9),
    c("bins5", "bins", 5, cost=9),
]}


def chk(S, got, items, want, what):
    """got = the items for which want holds, in order (conditions may be symbolic: decide them)."""
    exp = [x for x, w in zip(items, want) if S.truth(w)]
    S.check(len(got) == len(exp), "%s: %d items instead of %d" % (what, len(got), len(exp)))
    for g, e in zip(got, exp):
        S.check(g is e, "%s: wrong item or order" % what)
    S.observe(what, len(got))


def nz(S, v):
    return S.not_(S.eq(v, 0))


def lone(S, cfg, tag=""):
    """Position of the one item of another kind among many."""
    n = cfg["n"]
    return S.choice("lone" + tag, sorted(set([0, 1, n // 2, n - 2, n - 1]))) if cfg.get("lone") and n > 1 else None


def scopes(S, cfg, parent=None, tag=""):
    import ucis
    parent = parent or H.new_db()
    ts, kids = [], []
    at = lone(S, cfg, tag)
    for k in range(cfg["n"]):
        t = cfg["turn"][k == at] if at is not None else cfg["turn"][k % len(cfg["turn"])] if cfg.get("turn") else S.onebit("t%s%d" % (tag, k))
        n = S.name("n%s%d" % (tag, k)) if cfg.get("named") else "same"
        kids.append(parent.createInstance(n, None, 1, ucis.UCIS_SV, t, None, 0))
        ts.append(t)
    return parent, ts, kids


def items(S, cfg, tag=""):
    import ucis
    db = H.new_db()
    inst = db.createInstance("i", None, 1, ucis.UCIS_SV, ucis.UCIS_INSTANCE, None, 0)
    cg = inst.createCovergroup("g", None, 1, ucis.UCIS_SV)
    cp = cg.createCoverpoint("p", None, 1, ucis.UCIS_SV)
    sc = {"cg": cg, "cp": cp}.get(cfg.get("scope", "cp")) or cg.createCross("x", None, 1, ucis.UCIS_SV, [cp])
    ts, out = [], []
    at = lone(S, cfg, tag)
    for k in range(cfg["n"]):
        if cfg["what"] == "bins":
            ks = [H.BIN, H.IGN, H.ILL]
            kd = ks[k == at] if at is not None else ks[k % 3] if cfg.get("turn") else S.choice("k%d" % k, ks)
            t = H.kind_val(kd)
            out.append(sc.createBin("b", None, 1, k, "b", t))
        else:
            t = cfg["turn"][k == at] if at is not None else \
                cfg["turn"][k % len(cfg["turn"])] if cfg.get("turn") else S.onebit("t%s%d" % (tag, k), 32)
            d = ucis.CoverData(t, 0)
            out.append(sc.createNextCover("b", d, None))
        ts.append(t)
    return sc, ts, out


def run(S, cfg):
    from ucis.scope_type_t import ScopeTypeT as T
    from ucis.cover_type_t import CoverTypeT as C
    w = cfg["what"]
    if isinstance(cfg["n"], list):
        cfg = dict(cfg, n=S.choice("number", cfg["n"]))
    if w == "scopes":
        p, ts, kids = scopes(S, cfg)
        if cfg.get("nested"):
            p2, ts2, kids2 = scopes(S, dict(cfg, nested=False), kids[1], "x")
            m = S.mask("m")
            chk(S, list(p2.scopes(m)), kids2, [nz(S, t & m) for t in ts2], "nested scopes")
            chk(S, list(p.scopes(T.ALL)), kids, [True] * len(kids), "outer scopes")
            return
        if cfg.get("mask") == "all":
            chk(S, list(p.scopes(T.ALL)), kids, [True] * len(kids), "all scopes")
            chk(S, list(p.scopes(0)), kids, [False] * len(kids), "no scopes")
            return
        m = S.mask("m")
        chk(S, list(p.scopes(m)), kids, [nz(S, t & m) for t in ts], "scopes")
        for k, i in zip(ts, kids):
            S.check(S.eq(i.getScopeType(), k), "scope type")
    elif w == "api":
        api_kinds(S, cfg)
    elif w in ("items", "bins"):
        sc, ts, its = items(S, cfg)
        m = S.mask("m", 32)
        chk(S, list(sc.coverItems(m)), its, [nz(S, t & m) for t in ts], "cover items")
        for t, i in zip(ts, its):
            S.check(S.eq(i.getCoverData().type, t), "cover type")
    elif w in ("inter", "inter_items"):
        if w == "inter":
            p, ts, its = scopes(S, cfg)
            f, m = p.scopes, S.mask("m")
        else:
            p, ts, its = items(S, cfg)
            f, m = p.coverItems, S.mask("m", 32)
        a, b = [], []
        ia, ib = f(m), f(-1 if w == "inter_items" else T.ALL)
        for k in range(2 * len(its) + 2):
            which = S.flag("s%d" % k) if k < cfg.get("steps", len(its) + 1) else k % 2 == 0
            (a if which else b).extend(list_next(ia if which else ib))
        a.extend(list(ia))
        b.extend(list(ib))
        chk(S, a, its, [nz(S, t & m) for t in ts], "first iterator")
        chk(S, b, its, [True] * len(its), "second iterator")
        chk(S, list(f(m)), its, [nz(S, t & m) for t in ts], "third iterator")
    elif w == "grow":
        p, ts, kids = scopes(S, cfg)
        m = S.mask("m")
        chk(S, list(p.scopes(m)), kids, [nz(S, t & m) for t in ts], "before")
        _, ts2, kids2 = scopes(S, dict(cfg, n=1), p, "y")
        chk(S, list(p.scopes(m)), kids + kids2, [nz(S, t & m) for t in ts + ts2], "after")
    elif w == "grow_items":
        import ucis
        p, ts, its = items(S, cfg)
        m = S.mask("m", 32)
        chk(S, list(p.coverItems(m)), its, [nz(S, t & m) for t in ts], "before")
        t = S.onebit("ty", 32)
        i = p.createNextCover("b", ucis.CoverData(t, 0), None)
        chk(S, list(p.coverItems(m)), its + [i], [nz(S, x & m) for x in ts + [t]], "after")
    elif w in ("hist", "hist_inter"):
        hist(S, cfg)


def list_next(it):
    try:
        return [next(it)]
    except StopIteration:
        return []


def hist(S, cfg):
    from ucis.history_node_kind import HistoryNodeKind as K
    db = H.new_db()
    ks, ns = [], []
    at = lone(S, cfg)
    for k in range(cfg["n"]):
        kd = [K.TEST, K.MERGE][k == at] if at is not None else [K.TEST, K.MERGE, K.MERGE][k % 3] if cfg.get("turn") else \
            S.choice("k%d" % k, cfg.get("none") and [K.TEST, K.MERGE, K.NONE, None] or [K.TEST, K.MERGE])
        ks.append(kd)
        ns.append(db.createHistoryNode(None, "l", "p", kd))
    for q in (K.TEST, K.MERGE, K.ALL, K.NONE):
        want = [q == K.ALL or k == q for k in ks]
        chk(S, list(db.historyNodes(q)), ns, want, "history nodes")
        chk(S, list(db.getHistoryNodes(q)), ns, want, "history node list")
    if cfg["what"] == "hist_inter":
        q = S.choice("q", [K.TEST, K.MERGE, K.ALL])
        a, b = db.historyNodes(q), db.historyNodes(K.ALL)
        la, lb = [], []
        for k in range(cfg["n"] + 1):
            if S.flag("s%d" % k):
                la += list_next(a)
            else:
                lb += list_next(b)
        la += list(a)
        lb += list(b)
        chk(S, la, ns, [q == K.ALL or k == q for k in ks], "first iterator")
        chk(S, lb, ns, [True] * len(ns), "second iterator")
        n2 = db.createHistoryNode(None, "l2", "p2", K.TEST)
        chk(S, list(db.historyNodes(K.TEST)), ns + [n2], [k == K.TEST for k in ks] + [True], "after adding")


def api_kinds(S, cfg):
    """Children created through the covergroup API, selected by kind."""
    import ucis
    from ucis.scope_type_t import ScopeTypeT as T
    db = H.new_db()
    du = db.createScope("d", None, 1, ucis.UCIS_SV, ucis.UCIS_DU_MODULE, 0)
    inst = db.createInstance("i", None, 1, ucis.UCIS_SV, ucis.UCIS_INSTANCE, du, 0)
    cg = inst.createCovergroup("g", None, 1, ucis.UCIS_SV)
    chk(S, list(db.scopes(T.DU_MODULE)), [du, inst], [True, False], "design units")
    chk(S, list(db.scopes(T.INSTANCE)), [du, inst], [False, True], "instances")
    chk(S, list(inst.scopes(T.COVERGROUP)), [cg], [True], "covergroups")
    kinds, kids, cps = [], [], []
    at = lone(S, cfg)
    lk = S.choice("kind", [T.CROSS, T.COVERINSTANCE]) if at is not None else None
    for k in range(cfg["n"]):
        kd = [T.COVERPOINT, T.CROSS, T.COVERINSTANCE]
        if at is not None:
            kd = [T.COVERPOINT, lk][k == at]
        else:
            kd = kd[k % 3] if cfg.get("turn") else S.choice("k%d" % k, kd)
        n = "n"
        if kd == T.COVERPOINT:
            o = cg.createCoverpoint(n, None, 1, ucis.UCIS_SV)
            cps.append(o)
        elif kd == T.CROSS:
            o = cg.createCross(n, None, 1, ucis.UCIS_SV, list(cps))
        else:
            o = cg.createCoverInstance(n, None, 1, ucis.UCIS_SV)
        kinds.append(kd)
        kids.append(o)
    m = S.mask("m")
    chk(S, list(cg.scopes(m)), kids, [nz(S, k & m) for k in kinds], "children by mask")
    for q in (T.COVERPOINT, T.CROSS, T.COVERINSTANCE, T.COVERGROUP):
        chk(S, list(cg.scopes(q)), kids, [k == q for k in kinds], "children by kind")
