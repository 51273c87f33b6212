"""Shared harness code: building databases and reading them back through the public API."""

# bin kinds
BIN, IGN, ILL = "bin", "ign", "ill"

# names made only of unknown characters, of every length in turn
LEVELS = ["inst", "cg", "cp", "bin", "cr", "xbin", "ci", "cicp", "cibin", "cicr", "cixbin"]
WORDS = {"len": list(range(1, 25)), "lo": 32, "hi": 126, "bare": True}
ONE = {"cr": 1, "ci": 1, "cicr": 1}
YONE = {"cp": 0, "ci": 1, "cicp": 1, "cibin": 1, "cicr": 1, "cixbin": 1}
YLEV = ["cg", "ci", "cicp", "cibin", "cicr", "cixbin"]


# many items, deep nesting, crosses of many coverpoints: all names fixed
BIG = [("big_bins", {"cp": 1, "bin": 1100, "cr": 1, "xbin": 1100}, {}),
       ("big_cibins", {"cp": 1, "ci": 1, "cibin": 1100, "cicr": 1, "cixbin": 1100}, {}),
       ("big_kinds", {"cp": 1, "bin": 420, "cr": 1, "xbin": 280}, {"kinds": ["bin", "ign", "ill"], "xkinds": ["bin", "ign"]}),
       ("big_cp", {"cp": 200, "cr": 200}, {}),
       ("big_ci", {"cp": 1, "ci": 200}, {}),
       ("big_cicp", {"cp": 0, "ci": 1, "cicp": 200, "cicr": 200}, {}),
       ("big_cg", {"cg": 200}, {}),
       ("big_inst", {"inst": 200}, {}),
       ("big_sub", {"inst": 1, "sub": 200}, {}),
       ("big_deep", {"inst": 1, "sub": 1, "depth": 24, "ci": 1}, {}),
       ("big_ways", {"cp": 24, "cr": 2, "ci": 1, "cicp": 24, "cicr": 2}, {"ways": 24}),
       ("big_ways130", {"cp": 130, "cr": 1}, {"ways": 130})]


BIGB = ("; and databases of fixed names and symbolic numbers with up to 1100 bins per point, 200 items per level, "
        "24 levels of instances and crosses of 130 coverpoints; every number of items of one level from 1 to 18; bare names of 1-4 "
        "printable characters at two levels at a time; names that begin or end with white space, and empty names")


YBIG = [("big_bins", {"ci": 1, "cicp": 1, "cibin": 1100, "cicr": 1, "cixbin": 1100}, {}),
        ("big_kinds", {"ci": 2, "cicp": 1, "cibin": 420, "cicr": 1, "cixbin": 140}, {"kinds": ["bin", "ign", "ill"]}),
        ("big_cp", {"ci": 1, "cicp": 200, "cicr": 200, "cibin": 1}, {}),
        ("big_ci", {"ci": 200, "cicp": 1, "cibin": 1, "cicr": 1, "cixbin": 1}, {}),
        ("big_cg", {"cg": 200, "ci": 1, "cicp": 1, "cibin": 1, "cicr": 1, "cixbin": 1}, {}),
        ("big_ways", {"ci": 2, "cicp": 130, "cibin": 1, "cicr": 1}, {"ways": 130})]


def ybigs(mk, **k):
    return [mk(n, dict(sh, cp=0), **dict(x, **k)) for n, sh, x in YBIG]


# two levels of bare names of different lengths: a name and its child's may coincide with another pair once joined
PAIRS = [("cp", "bin", {}, {"cp": 2}), ("cg", "cp", {}, {"cg": 2}), ("inst", "cg", {}, {"inst": 2}),
         ("cg", "ci", {"ci": 1}, {"cg": 2}), ("ci", "cicp", {"ci": 1}, {"ci": 2}),
         ("cr", "xbin", {"cp": 1, "cr": 1, "xbin": 1}, {"cr": 2}), ("ci", "cicr", {"ci": 1, "cicr": 1}, {"ci": 2}),
         ("cicp", "cibin", {"ci": 1, "cicp": 1}, {"cicp": 2}), ("cp", "cr", {"cp": 1, "cr": 1}, {"cg": 2}),
         ("inst", "sub", {"sub": 1}, {"inst": 2})]


def pairs(mk, skip=(), lo=33, hi=126, ws="\t\n\r a,", **k):
    """mk(case, shape, **cfg) for every pair of levels"""
    return [mk("path_%s_%s" % (a, b), dict(sh, **two), sym=[a, b],
               nm={"bare": True, "lo": lo, "hi": hi, "seq": {a: [1, 3], b: [3, 1]}}, **k)
            for a, b, sh, two in PAIRS if a not in skip and b not in skip] + lens(mk, LENS, skip, lo, hi, **k) + \
        edges(mk, skip, lo - 1, hi, ws, **k) + nums(mk, [x for x in skip if x not in ("sub", "inst")], **k)


# every number of items of one level (and every mix of kinds in the lists) up to 18: a wrong page size, an item lost at a boundary
NUMS = [("inst", {}), ("sub", {"sub": 1}), ("depth", {"sub": 1}), ("cg", {}), ("cp", {}), ("bin", {"cr": 1}), ("cr", {"cr": 1}),
        ("xbin", {"cr": 1}), ("ci", {"ci": 1}), ("cicp", {"ci": 1}), ("cibin", {"ci": 1}),
        ("cicr", {"ci": 1, "cicr": 1}), ("cixbin", {"ci": 1, "cicr": 1})]


def nums(mk, skip=(), levels=None, top=18, **k):
    out = []
    for a, sh in levels or NUMS:
        if a in skip or any(x in skip for x in sh):
            continue
        kk = dict(k)
        if a in ("bin", "cibin"):
            kk.setdefault("kinds", [BIN, BIN, BIN, IGN, ILL, BIN])
        out.append(mk("num_" + a, dict(sh, **{a: list(range(1, 9 if a == "depth" else top + 1))}), **kk))
        if a in ("bin", "cibin", "xbin", "cixbin") and not (levels and "x" in a):      # many ignore and illegal bins
            kk["xkinds" if "x" in a else "kinds"] = [IGN, ILL]
            out.append(mk("numx_" + a, dict(sh, **{a: list(range(2, top + 4))}), **kk))
    return out


# three siblings of one level with bare names of 1, 3 and 4 characters: two may become one once normalised or abbreviated
LENS = [("inst", {}), ("cg", {}), ("cp", {}), ("bin", {}), ("cr", {"cr": 1}), ("xbin", {"cr": 1}), ("ci", {"ci": 1}),
        ("cicp", {"ci": 1}), ("cibin", {"ci": 1}), ("cicr", {"ci": 1, "cicr": 1}), ("cixbin", {"ci": 1, "cicr": 1})]


def lens(mk, levels, skip=(), lo=33, hi=126, **k):
    return [mk("len_" + a, dict(sh, **{a: 3}), sym=[a], nm={"bare": True, "lo": lo, "hi": hi, "seq": {a: [3, 4, 1]}}, **k)
            for a, sh in levels if a not in skip and not any(x in skip for x in sh)]


def pairs2(mk, skip=(), lo=33, hi=126, **k):
    """the same, one item per source"""
    return [mk("path2_%s_%s" % (a, b), dict(sh), sym=[a, b],
               nm={"bare": True, "lo": lo, "hi": hi, "seq": {a: [1, 3], b: [3, 1]}}, **k)
            for a, b, sh, two in PAIRS if a not in skip and b not in skip]


# names that begin and end with any character, white space included, next to a sibling without it
EDGES = [(["inst"], {"inst": 2}), (["cg"], {"cg": 2}), (["cg"], {"cg": 2, "ci": 1}), (["cp"], {"cp": 2, "cr": 1}), (["bin"], {"bin": 2}),
         (["cr"], {"cr": 2}), (["xbin"], {"cr": 1, "xbin": 2}), (["ci"], {"ci": 2}), (["cicp"], {"ci": 1, "cicp": 2, "cicr": 1}),
         (["cibin"], {"ci": 1, "cibin": 2}), (["cicr"], {"ci": 1, "cicr": 2}), (["cixbin"], {"ci": 1, "cicr": 1, "cixbin": 2})]


def edges(mk, skip=(), lo=32, hi=126, ws="\t\n\r a,", levels=None, **k):
    out = []
    for lv, sh in levels or EDGES:
        if set(lv) & set(skip) or set(sh) & set(skip):
            continue
        n = "_".join(lv + [x for x in sh if x == "ci" and lv == ["cg"]])
        nm = {"bare": True, "edge": True, "lo": lo, "hi": hi, "seq": {lv[0]: [2, 1]}}
        out.append(mk("edge_" + n, sh, sym=lv, nm=nm, **k))
        if ws:
            out.append(mk("edgews_" + n, sh, sym=lv, nm=dict(nm, alphabet=ws, seq={lv[0]: [2, 0]}), **k))
    return out


YBASE = {"cp": 0, "ci": 1, "cicp": 1, "cibin": 1, "cicr": 1, "cixbin": 1}
YPAIRS = [("cg", "ci", {"cg": 2}), ("ci", "cicp", {"ci": 2}), ("ci", "cicr", {"ci": 2}), ("cicp", "cibin", {"cicp": 2}),
          ("cicr", "cixbin", {"cicr": 2}), ("cicp", "cicr", {"ci": 2}), ("cg", "cicp", {"cg": 2})]


def ypairs(mk, lo=33, hi=126, **k):
    return [mk("path_%s_%s" % (a, b), dict(YBASE, **two), sym=[a, b],
               nm={"bare": True, "lo": lo, "hi": hi, "seq": {a: [1, 3], b: [3, 1]}}, **k) for a, b, two in YPAIRS] + \
        lens(mk, [(a, YBASE) for a in YLEV], (), lo, hi, **k) + \
        edges(mk, (), lo - 1, hi, levels=[([a], dict(YBASE, **{a: 2})) for a in YLEV], **k) + nums(mk, (), [(a, YBASE) for a in YLEV], **k)


def bigs(mk, skip=(), **k):
    return [mk(n, sh, **dict(x, **k)) for n, sh, x in BIG if n not in skip]


# an XML document's encoding: (declared, actual)
ENCS = [(None, "utf-8"), ("UTF-8", "utf-8"), ("UTF-8", "utf-8-sig"), (None, "utf-8-sig"), ("ISO-8859-1", "iso8859-1"),
        ("UTF-16", "utf-16"), (None, "utf-16")]
LOCALES = ["utf-8", "iso8859-1", "ascii"]
LATIN = {"lo": 33, "hi": 0xFF, "suffix": "z"}


def api():
    import ucis
    return ucis


def new_db():
    from ucis.mem.mem_factory import MemFactory
    return MemFactory.create()


def kind_val(k):
    from ucis.cover_type_t import CoverTypeT
    return {BIN: CoverTypeT.CVGBIN, IGN: CoverTypeT.IGNOREBIN, ILL: CoverTypeT.ILLEGALBIN}[k]


# ---------------------------------------------------------------- specs
class Bin(object):
    def __init__(self, name, count, at_least=1, kind=BIN):
        self.name, self.count, self.at_least, self.kind = name, count, at_least, kind


class CP(object):
    def __init__(self, name, bins, weight=1):
        self.name, self.bins, self.weight = name, bins, weight


class CR(object):
    def __init__(self, name, cps, bins, weight=1):
        self.name, self.cps, self.bins, self.weight = name, cps, bins, weight   # cps: indexes into coverpoints


class CG(object):
    def __init__(self, name, cps=(), crs=(), insts=(), weight=1):
        self.name, self.cps, self.crs, self.insts, self.weight = name, list(cps), list(crs), list(insts), weight


class Inst(object):
    def __init__(self, name, cgs, weight=1, du="du", subs=()):
        self.name, self.own, self.weight, self.du, self.subs = name, list(cgs), weight, du, list(subs)

    @property
    def cgs(self):
        """the covergroups of the instance and of its sub-instances, in report order"""
        return self.own + [g for i in self.subs for g in i.cgs]


def flat(insts, pre=None):
    """(hierarchical name, instance) of all instances, parents first"""
    out = []
    for i in insts:
        p = i.name if pre is None else pre + "\0" + i.name
        out.append((p, i))
        out.extend(flat(i.subs, p))
    return out


# ---------------------------------------------------------------- build through the API
def build(insts, db=None, src=True):
    import ucis
    from ucis.source_info import SourceInfo
    if db is None:
        db = new_db()
    fh = db.createFileHandle("f.sv", "/w") if src else None
    loc = SourceInfo(fh, 3, 0) if src else None
    dus = []
    todo = [(db, i) for i in insts]
    while todo:
        parent, i = todo.pop(0)
        du = None
        for n, d in dus:
            if n == i.du:
                du = d
        if du is None:
            du = db.createScope(i.du, loc, 1, ucis.UCIS_SV, ucis.UCIS_DU_MODULE,
                                ucis.UCIS_INST_ONCE | ucis.UCIS_SCOPE_UNDER_DU)
            dus.append((i.du, du))
        isc = parent.createInstance(i.name, loc, i.weight, ucis.UCIS_SV, ucis.UCIS_INSTANCE, du, ucis.UCIS_INST_ONCE)
        todo.extend([(isc, j) for j in i.subs])
        for g in i.own:
            build_cg(isc.createCovergroup(g.name, loc, g.weight, ucis.UCIS_SV), g, loc)
    return db


API = [None, None, None, False]       # how bins are created, and the objects that are used again for every bin


def mkbin(scope, b, loc):
    if API[0] != "next":
        return scope.createBin(b.name, loc, b.at_least, b.count, b.name, kind_val(b.kind))
    # the C-style interface; the caller's CoverData is filled in again for the next bin
    import ucis
    k = 1 if API[3] else 2
    if API[k] is None:
        API[k] = ucis.CoverData(kind_val(b.kind), ucis.UCIS_IS_32BIT)
    d = API[k]
    d.type = kind_val(b.kind)
    d.data = b.count
    if k == 2:
        d.at_least = b.at_least
    ucis.ucis_CreateNextCover(None, scope, b.name, d, loc)


def build_cg(scope, g, loc):
    import ucis
    cps = []
    for c in g.cps:
        cp = scope.createCoverpoint(c.name, loc, c.weight, ucis.UCIS_SV)
        cps.append(cp)
        for b in c.bins:
            mkbin(cp, b, loc)
    for x in g.crs:
        cr = scope.createCross(x.name, loc, x.weight, ucis.UCIS_SV, [cps[k] for k in x.cps])
        for b in x.bins:
            mkbin(cr, b, loc)
    for i in g.insts:
        build_cg(scope.createCoverInstance(i.name, loc, i.weight, ucis.UCIS_SV), i, loc)


# ---------------------------------------------------------------- flattened view
# A record is (key, value): key a list of strings starting with a record kind,
# value a list of numbers / strings.
def spec_records(insts):
    out = []
    for p, i in flat(insts):
        out.append((["inst", p], [i.weight]))
        for g in i.own:
            _spec_cg(out, [p], g, "cg")
    return out


def by_kind(bins):
    return [b for k in (BIN, IGN, ILL) for b in bins if b.kind == k]


def _spec_cg(out, path, g, kind):
    p = path + [g.name]
    out.append(([kind] + p, [g.weight]))
    for c in g.cps:
        out.append((["cp"] + p + [c.name], [c.weight]))
        for b in by_kind(c.bins):
            out.append((["bin"] + p + [c.name, b.kind, b.name], [b.count, b.at_least]))
    for x in g.crs:
        out.append((["cr"] + p + [x.name], [x.weight, [g.cps[k].name for k in x.cps]]))
        for b in by_kind(x.bins):
            out.append((["xbin"] + p + [x.name, b.kind, b.name], [b.count, b.at_least]))
    for i in g.insts:
        _spec_cg(out, p, i, "ci")


def db_records(S, db):
    from ucis.scope_type_t import ScopeTypeT
    out = []
    for p, i in db_insts(db):
        out.append((["inst", p], [i.getWeight()]))
        for g in i.scopes(ScopeTypeT.COVERGROUP):
            _db_cg(S, out, [p], g, "cg")
    return out


def db_insts(scope, pre=None):
    """(hierarchical name, scope) of all instances, parents first"""
    from ucis.scope_type_t import ScopeTypeT
    out = []
    for i in scope.scopes(ScopeTypeT.INSTANCE):
        p = i.getScopeName() if pre is None else pre + "\0" + i.getScopeName()
        out.append((p, i))
        out.extend(db_insts(i, p))
    return out


def _db_cg(S, out, path, g, kind):
    from ucis.scope_type_t import ScopeTypeT
    p = path + [g.getScopeName()]
    out.append(([kind] + p, [g.getWeight()]))
    cps = []
    for c in g.scopes(ScopeTypeT.COVERPOINT):
        cps.append(c)
        out.append((["cp"] + p + [c.getScopeName()], [c.getWeight()]))
        _db_bins(out, ["bin"] + p + [c.getScopeName()], c)
    for x in g.scopes(ScopeTypeT.CROSS):
        names = []
        for k in range(x.getNumCrossedCoverpoints()):
            pt = x.getIthCrossedCoverpoint(k)
            names.append(pt.getScopeName())
            own = [1 for c in cps if c is pt]
            S.check(len(own) == 1, "cross refers to a coverpoint outside its own covergroup")
        out.append((["cr"] + p + [x.getScopeName()], [x.getWeight(), names]))
        _db_bins(out, ["xbin"] + p + [x.getScopeName()], x)
    for i in g.scopes(ScopeTypeT.COVERINSTANCE):
        _db_cg(S, out, p, i, "ci")


def _db_bins(out, key, scope):
    from ucis.cover_type_t import CoverTypeT
    for k, v in ((BIN, CoverTypeT.CVGBIN), (IGN, CoverTypeT.IGNOREBIN), (ILL, CoverTypeT.ILLEGALBIN)):
        for b in scope.coverItems(v):
            d = b.getCoverData()
            out.append((key + [k, b.getName()], [d.data, d.at_least]))


# ---------------------------------------------------------------- comparisons (no forking)
def keq(S, a, b):
    if len(a) != len(b):
        return False
    cs = []
    for x, y in zip(a, b):
        e = S.eq(x, y)
        if e is False:
            return False
        cs.append(e)
    return S.all(cs)


IDX = []


def index(recs, key):
    """fast path: the values recorded under a key, if the key and all recorded keys are plain strings (None otherwise)"""
    if len(recs) < 100:
        return None
    for r, n, d in IDX:
        if r is recs and n == len(recs):
            break
    else:
        d = {}
        for k, v in recs:
            if d is not None and all(type(x) is str for x in k):
                d.setdefault(tuple(k), []).append(v)
            else:
                d = None
        IDX.append((recs, len(recs), d))
        del IDX[:-4]
    return d.get(tuple(key), []) if d is not None and all(type(x) is str for x in key) else None


def once(S, recs, key):
    """key occurs exactly once among the records"""
    i = index(recs, key)
    return S.one([keq(S, k, key) for k, _ in recs]) if i is None else len(i) == 1


def total(S, recs, key, field=0):
    """sum of a field over the records with that key"""
    i = index(recs, key)
    if i is not None:
        return S.wsum([(True, v[field]) for v in i])
    return S.wsum([(keq(S, k, key), v[field]) for k, v in recs])


def present(S, recs, key):
    i = index(recs, key)
    return S.any([keq(S, k, key) for k, _ in recs]) if i is None else len(i) > 0


def nm(key):
    return "/".join([str(x) if isinstance(x, str) else "?" for x in key])


def same_records(S, got, exp, what):
    """Both lists hold the same keys (each once) with the same values."""
    S.check(len(got) == len(exp), "%s: %d records instead of %d" % (what, len(got), len(exp)))
    for k, v in exp:
        i = index(got, k)
        S.check(S.any([S.and_(keq(S, k, k2), val_eq(S, v, v2)) for k2, v2 in got] if i is None else
                      [val_eq(S, v, v2) for v2 in i]), "%s: %s missing or different" % (what, nm(k)))
    for k, v in got:
        S.check(once(S, got, k), "%s: %s occurs more than once" % (what, nm(k)))


def first_order(recs):
    """keys of the union of the records of several trees (fixed names): parents before children, siblings of one
    kind in the order of their first occurrence"""
    tops = {}
    kids = {}
    for k, v in recs:
        par, me = tuple(k[1:-1]), k[-1]
        if k[0] == "inst":
            n = k[1].rsplit("\0", 1)
            par = tuple(["\0"] + n[:-1])
        elif k[0] in ("bin", "xbin"):
            par, me = tuple(k[1:-2]), (k[-2], k[-1])
        l = kids.setdefault((par, k[0]), [])
        if me not in [x for x, _ in l]:
            l.append((me, list(k)))
    out = []

    def cg(p):
        for a, b in (("cp", "bin"), ("cr", "xbin")):
            for n, k in kids.get((p, a), []):
                out.append(k)
                bs = kids.get((p + (n,), b), [])
                for kind in (BIN, IGN, ILL):
                    out.extend([k2 for (kd, _), k2 in bs if kd == kind])
        for n, k in kids.get((p, "ci"), []):
            out.append(k)
            cg(p + (n,))

    def inst(par):
        for n, k in kids.get((par, "inst"), []):
            out.append(k)
            for g, k2 in kids.get(((n,), "cg"), []):
                out.append(k2)
                cg((n, g))
            inst(("\0", n))
    inst(("\0",))
    return out


def val_eq(S, a, b):
    if len(a) != len(b):
        return False
    return S.all([S.eq(x, y) for x, y in zip(a, b)])


def seq_records(S, got, exp, what):
    """Same records in the same order."""
    S.check(len(got) == len(exp), "%s: %d records instead of %d" % (what, len(got), len(exp)))
    for (k, v), (k2, v2) in zip(got, exp):
        S.check(S.and_(keq(S, k, k2), val_eq(S, v, v2)), "%s: %s differs" % (what, nm(k2)))


def distinct(S, names):
    for a in range(len(names)):
        for b in range(a):
            S.assume(S.not_(S.eq(names[a], names[b])))


NUM = [5, 2, 9, 6, 3, 0, 7, 4, 1, 8]


def assume_hits(S, insts, step=None):
    """One outcome per regular bin: every second (every third if there are many) one hit (any other pattern: the
    unrestricted cases)."""
    for i in insts:
        for x in i.cgs:
            for y in [x] + x.insts:
                for p in y.cps + y.crs:
                    n = 0
                    st = step or (3 if len(p.bins) > 20 else 2)
                    for b in p.bins:
                        if b.kind == BIN:
                            S.assume(b.count >= b.at_least if n % st == 1 else b.count < b.at_least)
                            n += 1


# ---------------------------------------------------------------- generated databases
class Gen(object):
    """Builds specs with the requested shape.

    shape: number of items per level (inst, cg, cp, bin, cr, xbin, ci, cicp, cibin, cicr, cixbin)
    sym:   levels whose names are symbolic (everything else gets fixed names)
    opt:   levels whose items may be absent (symbolic presence)
    atl / wt: 'sym' or a number;  kinds: list of kinds cycled over the bins, or 'sym'
    """

    def __init__(self, S, cfg):
        self.S = S
        self.c = dict(sub=0, scg=1, depth=1, inst=1, cg=1, cp=1, bin=1, cr=0, xbin=1, ci=0, cicp=1, cibin=1, cicr=0, cixbin=1)
        self.c.update(cfg.get("shape", {}))
        for k in self.c:
            if isinstance(self.c[k], list):          # any of these sizes
                self.c[k] = S.choice("size_" + k, self.c[k])
        API[:] = [cfg.get("api"), None, None, cfg.get("atl", 1) == 1]
        self.sym = cfg.get("sym", [])
        self.opt = cfg.get("opt", [])
        self.atl = cfg.get("atl", 1)
        self.wt = cfg.get("wt", 1)
        self.kinds = cfg.get("kinds", [BIN])
        self.xkinds = cfg.get("xkinds", [BIN])
        self.nm = cfg.get("nm", {})
        self.one_len = None
        self.seq = {}
        self.ways = cfg.get("ways", 2)
        self.xrefs = cfg.get("xrefs")
        self.same = cfg.get("same")         # one prefix for all levels: names coincide across kinds
        self.dup = cfg.get("dup", [])       # levels whose names may coincide
        self.cnt_hi = cfg.get("cnt_hi")
        self.cnt_lo = cfg.get("cnt_lo", 0)
        self.atl_lo = cfg.get("atl_lo", 1)
        self.atl_hi = cfg.get("atl_hi")
        self.wtl = cfg.get("wtl")
        self.wt_lo = cfg.get("wt_lo", 0)
        self.wt_hi = cfg.get("wt_hi")

    def names(self, level, tag, pre, n, kinds=None):
        S = self.S
        if self.same:
            pre = "n"
        bare = self.nm.get("bare")
        if bare:
            pre = ""
        idx = list(range(n))
        if level in self.opt:
            idx = [k for k in idx if S.flag("has_%s_%d" % (tag, k))]
        if level in self.sym:
            r = [S.name("%s_%d" % (tag, k), self.name_len("%s_%d" % (tag, k), level), self.nm.get("prefix", "") + pre,
                        self.nm.get("suffix", ""), lo=self.nm.get("lo", 33), hi=self.nm.get("hi", 126),
                        alphabet=self.nm.get("alphabet")) for k in idx]
            if bare and not self.nm.get("edge"):   # no white space at the ends
                for x in r:
                    S.assume(S.not_(S.eq(x[0], " ")))
                    S.assume(S.not_(S.eq(x[len(x) - 1], " ")))
            if level in self.dup:
                pass
            elif kinds is None:
                distinct(S, r)
            else:
                for a in range(len(r)):
                    for b in range(a):
                        if kinds[idx[a] % len(kinds)] == kinds[idx[b] % len(kinds)]:
                            S.assume(S.not_(S.eq(r[a], r[b])))
        else:
            # not in alphabetical order
            r = ["%s%s%d%s" % (self.nm.get("prefix", ""), pre, NUM[k] if k < len(NUM) else k,
                               self.nm.get("suffix", "")) for k in idx]
            if level in self.dup:
                r = r[:1] * len(r)
        return list(zip(idx, r))

    def name_len(self, tag, level=None):
        if level in self.nm.get("seq", {}):       # lengths used in turn, over all items of the level
            l = self.nm["seq"][level]
            k = self.seq.get(level, 0)
            self.seq[level] = k + 1
            return l[k % len(l)]
        if "var" in self.nm:
            return self.S.choice("len_" + tag, self.nm["var"])
        if "len" in self.nm:              # one length for all names
            if self.one_len is None:
                self.one_len = self.S.choice("len", self.nm["len"])
            return self.one_len
        return self.nm.get("n", 1)

    def weight(self, tag, level):
        if self.wt == "sym" and (self.wtl is None or level in self.wtl):
            return self.S.int("w_" + tag, self.wt_lo, self.wt_hi)
        return 1 if self.wt == "sym" else self.wt

    def bins(self, tag, level, n, pre="b", kinds=None):
        S = self.S
        kinds = kinds or self.kinds
        if kinds == "sym":
            ks = [S.choice("kind_%s_%d" % (tag, k), [BIN, IGN, ILL]) for k in range(n)]
        else:
            ks = [kinds[k % len(kinds)] for k in range(n)]
        out = []
        for k, name in self.names(level, tag, pre, n, ks):
            a = self.S.int("al_%s_%d" % (tag, k), self.atl_lo, self.atl_hi) if self.atl == "sym" else self.atl
            out.append(Bin(name, self.S.int("n_%s_%d" % (tag, k), self.cnt_lo, self.cnt_hi), a, ks[k]))
        return out

    def cg(self, tag, name, pre=""):
        c = self.c
        cps = []
        for k, n in self.names(pre + "cp", tag + "p", "p", c[pre + "cp"]):
            t = "%sp%d" % (tag, k)
            cps.append(CP(n, self.bins(t, pre + "bin", c[pre + "bin"]), self.weight(t, "cp")))
        crs = []
        for k, n in self.names(pre + "cr", tag + "x", "x", c[pre + "cr"]):
            t = "%sx%d" % (tag, k)
            ways = self.ways if isinstance(self.ways, int) else self.S.choice("ways_" + t, self.ways)
            w = min(ways, len(cps))
            refs = [(k + j) % len(cps) for j in range(w)] if cps else []
            if self.xrefs == "rep" and cps:
                refs = [k % len(cps)] * ways
            elif self.xrefs == "any" and cps:
                refs = [self.S.choice("ref_%s_%d" % (t, j), list(range(len(cps)))) for j in range(ways)]
            crs.append(CR(n, refs,
                          self.bins(t, pre + "xbin", c[pre + "xbin"], "q", self.xkinds), self.weight(t, "cr")))
        insts = []
        if pre == "":
            for k, n in self.names("ci", tag + "i", "I", c["ci"]):
                insts.append(self.cg("%si%d" % (tag, k), n, "ci"))
        return CG(name, cps, crs, insts, self.weight(tag, pre or "cg"))

    def db(self, tag):
        out = []
        for k, n in self.names("inst", tag + "s", "s", self.c["inst"]):
            t = "%ss%d" % (tag, k)
            out.append(self.inst(t, n, self.c["cg"], 0))
        return out

    def inst(self, t, name, ncg, depth):
        cgs = [self.cg("%sg%d" % (t, j), gn) for j, gn in self.names("cg", t + "g", "g", ncg)]
        subs = []
        if depth < self.c["depth"]:
            for k, n in self.names("sub", t + "s", "s" if self.same else "u", self.c["sub"]):
                subs.append(self.inst("%ss%d" % (t, k), n, self.c["scg"], depth + 1))
        return Inst(name, cgs, self.weight(t, "inst"), subs=subs)


# ---------------------------------------------------------------- coverage reports
def rpt_records(S, rpt):
    """Flattened view of a report object: structure, counts and goals, coverage, weights."""
    out = [(["rpt"], [rpt.coverage])]
    for g in rpt.covergroups:
        _rpt_cg(out, [], g, "cg")
    return out


report_records = rpt_records


def _rpt_cg(out, path, g, kind):
    p = path + [g.name]
    out.append(([kind] + p, [g.coverage, g.weight, g.instname]))
    for c in g.coverpoints:
        out.append((["cp"] + p + [c.name], [c.coverage, c.weight]))
        for k, l in ((BIN, c.bins), (IGN, c.ignore_bins), (ILL, c.illegal_bins)):
            for b in l:
                out.append((["bin"] + p + [c.name, k, b.name], [b.count, b.goal]))
    for x in g.crosses:
        out.append((["cr"] + p + [x.name], [x.coverage, x.weight]))
        for b in x.bins:
            out.append((["xbin"] + p + [x.name, BIN, b.name], [b.count, b.goal]))
    for i in g.covergroups:
        _rpt_cg(out, p, i, "ci")


def same_num(S, a, b, tol=1e-9):
    if S.is_num(a) and S.is_num(b):
        return S.close(a, b, tol)
    return S.eq(a, b)


def seq_close(S, got, exp, what):
    S.check(len(got) == len(exp), "%s: %d records instead of %d" % (what, len(got), len(exp)))
    for (k, v), (k2, v2) in zip(got, exp):
        S.check(S.and_(keq(S, k, k2), len(v) == len(v2), S.all([same_num(S, x, y) for x, y in zip(v, v2)])),
                "%s: %s differs" % (what, nm(k2)))


# ---------------------------------------------------------------- independent coverage arithmetic
def hits(S, bins):
    """(number of regular bins, number of hit regular bins)"""
    reg = [b for b in bins if b.kind == BIN]
    return len(reg), S.wsum([(b.count >= b.at_least, 1) for b in reg])


def pt_cov(S, pt):
    n, h = hits(S, pt.bins)
    return S.div(100 * h, n) if n else 0


def wmean(S, items):
    """items: [(coverage, weight)]: weighted mean, 0 if the total weight is 0"""
    num = 0
    den = 0
    for c, w in items:
        num = num + c * w
        den = den + w
    if S.is_int(den) and not hasattr(den, "e") and isinstance(den, int):
        return S.div(num, den) if den else 0
    return S.ratio(num, den)


def cg_cov(S, g):
    return wmean(S, [(pt_cov(S, c), c.weight) for c in g.cps] + [(pt_cov(S, x), x.weight) for x in g.crs])


def all_cov(S, insts):
    return wmean(S, [(cg_cov(S, g), g.weight) for i in insts for g in i.cgs])


# ---------------------------------------------------------------- XML
def uniform_atl(insts):
    """The interchange format has one threshold per coverpoint / cross."""
    def cg(g):
        for p in g.cps + g.crs:
            for b in p.bins:
                b.at_least = p.bins[0].at_least
        for i in g.insts:
            cg(i)
    for i in insts:
        for g in i.cgs:
            cg(g)
    return insts


def xml_write(S, db, how="factory", name="a.xml"):
    """Write a database as XML to a file; returns its path."""
    p = S.path(name)
    if how == "factory":
        from ucis.xml.xml_factory import XmlFactory
        XmlFactory.write(db, p)
    elif how == "stream":
        from ucis.xml.xml_factory import XmlFactory
        st = S.stream()
        XmlFactory.write(db, st)
        S.write_text(p, S.text_of(st))
    else:
        from ucis.xml.xml_writer import XmlWriter
        st = S.stream()
        w = XmlWriter()
        if how == "writer2":              # the writer has written another database before
            w.write(S.stream(), build([Inst("o", [CG("g", [CP("p", [Bin("b", 1)])])]), Inst("i", [CG("g", [CP("q", [
                Bin("b", 3)])], insts=[CG("I", [CP("p", [Bin("b", 1)])])])], subs=[Inst("u", [])])]))
        w.write(st, db)
        S.write_text(p, S.text_of(st))
    return p


def xml_read(S, path, how="factory"):
    if how == "factory":
        from ucis.xml.xml_factory import XmlFactory
        return XmlFactory.read(path)
    if how == "stream":
        from ucis.xml.xml_factory import XmlFactory
        return XmlFactory.read(S.stream(S.read_text(path)))
    if how == "loads":
        from ucis.xml.xml_reader import XmlReader
        return XmlReader().loads(S.read_text(path))
    if how == "rgy":
        from ucis.rgy import FormatRgy
        return FormatRgy.inst().getDatabaseDesc("xml").fmt_if().read(path)
    from ucis.xml.xml_reader import XmlReader
    return XmlReader().read(S.stream(S.read_text(path)))


def encoded(S, text, encs):
    """the document in one of the encodings: (text with its declaration, encoding)"""
    decl, enc = S.choice("enc", encs)
    return "<?xml version='1.0'%s?>\n" % (" encoding='%s'" % decl if decl else "") + text, enc


def drop_inst_weight(recs):
    return [(k, [] if k[0] == "inst" else v) for k, v in recs]


def sum_records(S, insts):
    """Type-level records reconstructed from the cover-instances of each covergroup: [(key, value)] where
    duplicates (equal keys) may occur: the caller combines them."""
    out = []
    for path, i in flat(insts):
        for g in i.own:
            for ci in g.insts:
                p = [path, g.name]
                for c in ci.cps:
                    out.append((["cp"] + p + [c.name], [c.weight]))
                    for b in c.bins:
                        out.append((["bin"] + p + [c.name, b.kind, b.name], [b.count, b.at_least]))
                for x in ci.crs:
                    out.append((["cr"] + p + [x.name], [x.weight, [ci.cps[k].name for k in x.cps]]))
                    for b in x.bins:
                        out.append((["xbin"] + p + [x.name, b.kind, b.name], [b.count, b.at_least]))
    return out


def as_read(insts):
    """What a database looks like once written as XML and read back: a covergroup without cover-instances
    becomes a single cover-instance with the covergroup's name, holding its data."""
    out = []
    for i in insts:
        cgs = []
        for g in i.own:
            ins = g.insts or [CG(g.name, g.cps, g.crs, [], g.weight)]
            cgs.append(CG(g.name, [], [], ins, g.weight))
        out.append(Inst(i.name, cgs, i.weight, subs=as_read(i.subs)))
    return out


def check_types(S, got, insts, what):
    """Type-level records of `got` are the union / sum of the cover-instances' records."""
    exp = sum_records(S, insts)
    typ = [r for r in got if len(r[0]) == {"cp": 4, "cr": 4, "bin": 6, "xbin": 6}.get(r[0][0], 0)]
    for k, v in typ:
        S.check(once(S, got, k), "%s: type-level %s occurs more than once" % (what, nm(k)))
        S.check(present(S, exp, k), "%s: type-level %s is in no instance" % (what, nm(k)))
        if k[0] in ("bin", "xbin"):
            S.check(S.eq(v[0], total(S, exp, k)), "%s: type-level count of %s is not the sum over the instances" %
                    (what, nm(k)))
            rest = v[1:]
        else:
            rest = v
        alts = []
        before = False                        # those of the first instance that has it
        i = index(exp, k)
        for k2, v2 in exp if i is None else [(k, v2) for v2 in i[:1]]:
            e = keq(S, k, k2)
            if e is False:
                continue
            v2 = v2[1:] if k[0] in ("bin", "xbin") else v2
            alts.append(S.and_(e, S.not_(before), val_eq(S, rest, v2)))
            before = S.or_(before, e)
        S.check(S.any(alts), "%s: attributes of type-level %s" % (what, nm(k)))
    for k, v in exp:
        S.check(present(S, typ, k), "%s: type-level %s missing" % (what, nm(k)))


def inst_records(recs):
    """Records of design instances, covergroup types and cover-instances (everything but type-level points)."""
    n = {"cp": 4, "cr": 4, "bin": 6, "xbin": 6}
    return [r for r in recs if len(r[0]) != n.get(r[0][0], 0)]


# ---------------------------------------------------------------- history nodes
HTEXT = ["runcwd", "seed", "cmd", "args", "compulsory", "user", "timeunit"]
HTEXT2 = ["toolcat", "vendor", "tool", "toolver"]


class Hist(object):
    pass


def is_month(S, v, m):
    return S.and_(S.eq(v[4], m[0]), S.eq(v[5], m[1]))


def four(S, a, b):
    """the two digits are a multiple of four"""
    return S.or_(S.and_(S.any([S.eq(a, x) for x in "02468"]), S.any([S.eq(b, x) for x in "048"])),
                 S.and_(S.any([S.eq(a, x) for x in "13579"]), S.any([S.eq(b, x) for x in "26"])))


def leap(S, v):
    cent = S.and_(S.eq(v[2], "0"), S.eq(v[3], "0"))
    return S.or_(S.and_(S.not_(cent), four(S, v[2], v[3])), S.and_(cent, four(S, v[0], v[1])))


def gen_date(S, tag):
    d = S.digits(tag, 14)
    v = [d[k] for k in range(14)]
    S.assume(S.all([S.or_(S.eq(v[0], "2"), S.and_(S.eq(v[0], "1"), S.eq(v[1], "9"), S.eq(v[2], "9"))),
                    S.or_(S.and_(S.eq(v[4], "0"), S.not_(S.eq(v[5], "0"))),
                          S.and_(S.eq(v[4], "1"), S.or_(S.eq(v[5], "0"), S.eq(v[5], "1"), S.eq(v[5], "2")))),
                    S.or_(S.and_(S.eq(v[6], "0"), S.not_(S.eq(v[7], "0"))), S.eq(v[6], "1"), S.eq(v[6], "2"),
                          S.and_(S.eq(v[6], "3"), S.or_(S.eq(v[7], "0"), S.eq(v[7], "1")))),
                    S.or_(S.not_(S.and_(S.eq(v[6], "3"), S.eq(v[7], "1"))), S.not_(S.any([is_month(S, v, m) for m in
                          ("02", "04", "06", "09", "11")]))),
                    S.or_(S.not_(is_month(S, v, "02")), S.eq(v[6], "0"), S.eq(v[6], "1"),
                          S.and_(S.eq(v[6], "2"), S.or_(S.not_(S.eq(v[7], "9")), leap(S, v)))),
                    S.or_(S.eq(v[8], "0"), S.eq(v[8], "1"),
                          S.and_(S.eq(v[8], "2"), S.any([S.eq(v[9], x) for x in "0123"]))),
                    S.any([S.eq(v[10], x) for x in "012345"]),
                    S.any([S.eq(v[12], x) for x in "012345"])]))
    return d


def gen_hist(S, tag, cfg):
    """sym: fields with symbolic text; unset: fields left alone; date 'sym'; kinds/stati: symbolic choice"""
    from ucis.history_node_kind import HistoryNodeKind as K
    from ucis.test_status_t import TestStatusT as T
    nm_ = cfg.get("nm", {"lo": 32, "hi": 0xD7FF})
    h = Hist()
    unset = cfg.get("unset", [])

    def text(f, default):
        if f in unset:
            return None
        if f in cfg.get("symf", []):
            if "len" in nm_:
                if getattr(S, "one_len", None) is None:
                    S.one_len = S.choice("len", nm_["len"])
                n = S.one_len
            else:
                n = S.choice("len_%s_%s" % (tag, f), nm_["var"]) if "var" in nm_ else nm_.get("n", 1)
            return S.name("%s_%s" % (tag, f), n, nm_.get("prefix", ""), nm_.get("suffix", ""),
                          lo=nm_.get("lo", 33), hi=nm_.get("hi", 126), alphabet=nm_.get("alphabet"))
        return default

    def num(f, default, real=True):
        if f in unset:
            return None
        if f in cfg.get("symf", []):
            if real:
                return S.real("%s_%s" % (tag, f), 0, cfg.get("real_hi", 1000000), cfg.get("den", 8))
            return S.int("%s_%s" % (tag, f), 0)
        return default
    h.lname = text("lname", "L" + tag)
    h.pname = text("pname", "P" + tag)
    h.kind = S.choice(tag + "_kind", [K.TEST, K.MERGE]) if cfg.get("kind") == "sym" else K.TEST
    h.status = S.choice(tag + "_st", [T.OK, T.ERROR, T.FATAL]) if cfg.get("st") == "sym" else T.OK
    for f in HTEXT + HTEXT2 + ["comment"]:
        setattr(h, f, text(f, f + tag))
    h.simtime = num("simtime", 1.5)
    h.cputime = num("cputime", 0.25)
    h.cost = num("cost", 2.0)
    h.same = num("same", 4, False)
    h.date = gen_date(S, tag + "_date") if cfg.get("date") == "sym" else None if "date" in unset else "20240229235959"
    return h


def build_hist(db, h, how="setters"):
    from ucis.test_data import TestData
    n = db.createHistoryNode(None, h.lname, h.pname, h.kind)
    if how == "testdata":
        n.setTestData(TestData(h.status, h.toolcat, h.date, h.simtime, h.timeunit, h.runcwd, h.cputime, h.seed,
                               h.cmd, h.args, h.compulsory, h.user, h.cost))
    else:
        n.setTestStatus(h.status)
        for v, f in ((h.toolcat, n.setToolCategory), (h.date, n.setDate), (h.simtime, n.setSimTime),
                     (h.timeunit, n.setTimeUnit), (h.runcwd, n.setRunCwd), (h.cputime, n.setCpuTime),
                     (h.seed, n.setSeed), (h.cmd, n.setCmd), (h.args, n.setArgs), (h.compulsory, n.setCompulsory),
                     (h.user, n.setUserName), (h.cost, n.setCost)):
            if v is not None:
                f(v)
    for v, f in ((h.vendor, n.setVendorId), (h.tool, n.setVendorTool), (h.toolver, n.setVendorToolVersion),
                 (h.same, n.setSameTests), (h.comment, n.setComment)):
        if v is not None:
            f(v)
    return n


def hist_fields(n):
    return [("logical name", n.getLogicalName()), ("physical name", n.getPhysicalName()), ("kind", n.getKind()),
            ("status", n.getTestStatus()), ("toolcat", n.getToolCategory()), ("date", n.getDate()),
            ("simtime", n.getSimTime()), ("timeunit", n.getTimeUnit()), ("runcwd", n.getRunCwd()),
            ("cputime", n.getCpuTime()), ("seed", n.getSeed()), ("cmd", n.getCmd()), ("args", n.getArgs()),
            ("compulsory", n.getCompulsory()), ("user", n.getUserName()), ("cost", n.getCost()),
            ("vendor", n.getVendorId()), ("tool", n.getVendorTool()), ("toolver", n.getVendorToolVersion()),
            ("same", n.getSameTests()), ("comment", n.getComment()), ("version", n.getUCISVersion())]
