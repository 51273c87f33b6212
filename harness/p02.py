"""The merged database is the union of the sources' structure."""
import hlib as H

BOUNDS = ("1-4 source databases; up to 3 items per level with symbolic names (any character U+0001..U+D7FF) at one "
          "or two levels at a time, symbolic presence per level; crosses over 1-4 coverpoints in arbitrary order; "
          "weights, at-least thresholds and counts: every non-negative integer, independently per source")
BOUNDS += H.BIGB
OUTSIDE = "longer symbolic names, larger databases, source locations"
ASSUMPTIONS = ["outside the dup configurations, names are unique among siblings of one kind in each source",
               "a cross only refers to coverpoints of its own covergroup (instance)"]

W = {"lo": 1, "hi": 0xD7FF}
B = {"atl": "sym", "wt": "sym"}


def c(case, src, shape, **k):
    d = {"case": case, "src": src, "shape": shape}
    d.update(B)
    d.update(k)
    return d


SLOW = ['insts3', 'ci3', 'cr3', 'points3', 'bins3x3']
CONFIGS = {"quick": [
    c("bins", 2, {"bin": 3}, sym=["bin"], nm=W, kinds=[H.BIN, H.BIN, H.IGN]),
    c("bins3", 3, {"bin": 2}, sym=["bin"], nm=W, cost=3),
    c("kinds", 2, {"bin": 2}, kinds="sym"),
    c("xbins", 2, {"cp": 2, "cr": 1, "xbin": 2}, sym=["xbin"], nm=W),
    c("xkinds", 2, {"cp": 1, "cr": 1, "xbin": 2}, xkinds="sym"),
    c("points", 3, {"cp": 2}, sym=["cp"], nm=W, cost=2),
    c("crosses", 3, {"cp": 2, "cr": 2}, sym=["cr"], nm=W, cost=2),
    c("cross3", 2, {"cp": 4, "cr": 2}, ways=3),
    c("cross4", 2, {"cp": 4, "cr": 1}, ways=4, opt=["cr"]),
    c("crosspts", 2, {"cp": 2, "cr": 1}, sym=["cp"], nm=W),
    c("perm", 2, {"cp": 3, "cr": 1}, perm=3, cost=2),
    c("groups", 3, {"cg": 2, "cp": 1}, sym=["cg"], nm=W, cost=2),
    c("insts", 3, {"inst": 2}, sym=["inst"], nm=W, cost=2),
    c("coverinsts", 3, {"ci": 2}, sym=["ci"], nm=W, cost=2),
    c("ci_points", 2, {"ci": 1, "cicp": 2, "cicr": 1}, sym=["cicp"], nm=W),
    c("ci_cross", 2, {"ci": 2, "cicp": 3, "cicr": 2}, sym=["cicr"], nm=W, cost=2),
    c("ci_bins", 2, {"ci": 1, "cibin": 2}, sym=["cibin"], nm=W),
    c("ci_same", 2, {"cp": 2, "cr": 1, "ci": 2, "cicp": 2, "cicr": 1}),
    c("opt_pts", 2, {"cp": 3}, opt=["cp"]),
    c("opt_grp", 3, {"cg": 2, "cp": 1}, opt=["cg"]),
    c("opt_inst", 3, {"inst": 2}, opt=["inst"]),
    c("opt_ci", 2, {"ci": 3}, opt=["ci"]),
    c("opt_bins", 2, {"bin": 3}, opt=["bin"]),
    c("du", 2, {"inst": 2}, du=[1]),
    c("du_len", 2, {"inst": 2}, du=[0, 1, 2], cost=3),
    c("var_bins", 2, {"bin": 2}, sym=["bin"], nm=dict(W, var=[1, 2]), cost=3),
    c("var_cp", 2, {"cp": 2, "cr": 1}, sym=["cp"], nm=dict(W, var=[0, 1]), cost=3),
    c("var_cg", 2, {"cg": 2, "ci": 1}, sym=["cg"], nm=dict(W, var=[0, 1]), cost=3),
    c("wide", 4, {"inst": 3, "cg": 2, "cp": 3, "bin": 3, "cr": 2, "xbin": 2, "ci": 2, "cicp": 2, "cicr": 1},
      kinds=[H.BIN, H.IGN, H.ILL]),
    c("empty", 2, {"inst": 1, "cg": 1, "cp": 1, "bin": 0, "ci": 1, "cicp": 1, "cibin": 0}),
    c("nocg", 2, {"inst": 2, "cg": 0}),
    c("nocp", 2, {"cg": 2, "cp": 0, "ci": 1, "cicp": 0}),
    c("same", 2, {"inst": 2, "cg": 2, "cp": 2, "bin": 2, "cr": 2, "xbin": 2, "ci": 2, "cicp": 2, "cibin": 2, "cicr": 2, "cixbin": 2}, same=True,
      kinds=[H.BIN, H.ILL], xkinds=[H.BIN, H.IGN]),
    c("same_sym", 2, {"cp": 1, "cr": 1, "ci": 1, "cicr": 1}, same=True, sym=["cp", "cr"]),
    c("xrefs", 2, {"cp": 2, "cr": 1, "ci": 1, "cicp": 2, "cicr": 1}, xrefs="any", cost=2),
    c("xways", 2, {"cp": 3, "cr": 1, "ci": 1, "cicp": 3, "cicr": 1}, ways=[1, 2, 3], cost=2),
    c("xways_any", 2, {"cp": 2, "cr": 1}, ways=[0, 1, 2, 3], xrefs="any", cost=2),
    c("xways_bins", 2, {"cp": 3, "cr": 1, "xbin": 2}, ways=[1, 3], opt=["xbin"], cost=2),
    c("xways_pts", 3, {"cp": 2, "cr": 1, "xbin": 1}, ways=[1, 2], opt=["cr"], cost=2),
    c("xrep", 2, {"cp": 2, "cr": 2, "ci": 1, "cicp": 2, "cicr": 1}, xrefs="rep", ways=3),
    c("long", 2, {"inst": 2, "cg": 2, "cp": 2, "cr": 1, "ci": 2}, nm={"prefix": "n" * 300}),
    c("dup_ci", 2, {"ci": 2, "cicp": 1, "cicr": 1}, sym=["ci"], dup=["ci"], nm=W),
    c("dup_cp", 2, {"cp": 2, "cr": 1}, sym=["cp"], dup=["cp"], nm=W),
    c("dup_cr", 2, {"cp": 2, "cr": 2}, sym=["cr"], dup=["cr"], nm=W),
    c("dup_cg", 2, {"cg": 2, "cp": 1}, sym=["cg"], dup=["cg"], nm=W),
    c("dup_inst", 2, {"inst": 2}, sym=["inst"], dup=["inst"], nm=W),
    c("astral", 2, {"cp": 1, "bin": 2, "cr": 1}, sym=["cp", "bin", "cr"], nm={"lo": 0x10000, "hi": 0x10FFFF}),
    c("api", 2, {"inst": 2, "cg": 2, "cp": 2, "bin": 2, "cr": 2, "xbin": 2, "ci": 2, "cicp": 2, "cibin": 2, "cicr": 2}, api="next", atl="sym", kinds=[H.BIN, H.IGN, H.BIN, H.ILL]),
    c("api1", 2, {"inst": 2, "cg": 2, "cp": 2, "bin": 2, "cr": 2, "xbin": 2, "ci": 2, "cicp": 2, "cibin": 2, "cicr": 2}, api="next", kinds=[H.BIN, H.IGN, H.BIN, H.ILL]),
    c("many_bins", 2, {"cp": 1, "bin": 70, "cr": 1, "xbin": 70}, atl="sym"),
    c("many_src", 12, {"cp": 1, "bin": 2, "cr": 1, "ci": 1}, wt="sym"),
    c("many_cp", 2, {"cg": 12, "cp": 12, "ci": 1, "cicp": 2}, wt="sym"),
    c("many_ci", 2, {"cp": 1, "ci": 20, "cr": 12}, wt="sym"),
    c("sub", 2, {"inst": 2, "sub": 2, "depth": 2, "cr": 1, "ci": 1}),
    c("sub_sym", 3, {"inst": 1, "sub": 2, "cg": 0}, sym=["sub"], nm=W, cost=2),
    c("sub_inst", 2, {"inst": 2, "sub": 1, "cg": 0}, sym=["inst", "sub"], nm=W, cost=2),
    c("sub_opt", 2, {"inst": 1, "sub": 2, "depth": 2, "scg": 0}, opt=["sub"], cost=2),
    c("sub_cg", 2, {"inst": 1, "cg": 1, "sub": 2, "scg": 2}, sym=["cg"], nm=W, cost=9),
    c("sub_du", 2, {"inst": 1, "sub": 1}, du=[1]),
    c("sub_du2", 1, {"inst": 2, "cg": 0, "sub": 1, "scg": 1}, du=[1]),
    c("sub_du2x2", 2, {"inst": 1, "cg": 0, "sub": 1, "depth": 2, "scg": 0}, du=[1], same=True),
    c("sub_same", 2, {"inst": 2, "cg": 2, "sub": 2, "scg": 2, "depth": 2, "ci": 1, "cr": 1}, same=True),
    c("sub_dup", 2, {"inst": 1, "sub": 2}, sym=["sub"], dup=["sub"], nm=W),
    c("words", 1, H.ONE, sym=H.LEVELS, nm=H.WORDS),
    c("words2", 2, H.ONE, sym=["inst", "cg", "cp", "bin"], nm=H.WORDS, cost=2),
    c("words2_ci", 2, H.ONE, sym=["ci", "cicp", "cicr"], nm=H.WORDS, cost=2),
    c("path_du", 1, {"inst": 2, "cg": 0}, sym=["inst"], nm={"bare": True, "seq": {"inst": [1, 3]}}, du=[3, 1]),
    c("words_du", 1, {"inst": 1}, du=list(range(1, 25))),
] + H.pairs(lambda n, sh, **k: c(n, 1, sh, **k)) + H.pairs2(lambda n, sh, **k: c(n, 2, sh, **k)) + \
    H.bigs(lambda n, sh, **k: c(n, 2, sh, **k)) + [c("big_src", 150, {"cp": 1, "cr": 1, "ci": 1})], "thorough": [
    c("bins4", 2, {"bin": 4}, sym=["bin"], nm=W, cost=9),
    c("bins3x3", 3, {"bin": 3}, sym=["bin"], nm=W, cost=50),
    c("bins_src4", 4, {"bin": 2}, sym=["bin"], nm=W, cost=50),
    c("points3", 3, {"cp": 3}, sym=["cp"], nm=W, cost=50),
    c("groups3", 2, {"cg": 3}, sym=["cg"], nm=W, cost=9),
    c("insts3", 3, {"inst": 3}, sym=["inst"], nm=W, cost=50),
    c("ci3", 3, {"ci": 3}, sym=["ci"], nm=W, cost=50),
    c("cr3", 3, {"cp": 2, "cr": 3}, sym=["cr"], nm=W, cost=50),
    c("crosspts3", 2, {"cp": 3, "cr": 2}, sym=["cp"], nm=W, ways=3, cost=9),
    c("perm4", 2, {"cp": 4, "cr": 1}, perm=4, cost=50),
    c("pts_cr", 2, {"cp": 2, "cr": 2}, sym=["cp", "cr"], nm=W, cost=20),
    c("grp_ci", 2, {"cg": 2, "ci": 2}, sym=["cg", "ci"], nm=W, cost=20),
    c("kinds3", 3, {"bin": 2}, kinds="sym", cost=50),
    c("long_sym", 2, {"bin": 2, "cp": 2}, sym=["bin"], nm={"prefix": "n" * 200, "suffix": "t" * 70}, cost=3),
    c("wide8", 8, {"inst": 4, "cg": 3, "cp": 3, "bin": 4, "cr": 2, "xbin": 2, "ci": 3, "cicp": 2, "cicr": 1},
      kinds=[H.BIN, H.IGN, H.ILL], cost=9),
]}


def first(S, exp, key):
    """values of the first record with that key, as a chain of conditions"""
    i = H.index(exp, key)
    if i is not None:
        return [(True, v) for v in i[:1]]
    out = []
    before = False
    for k, v in exp:
        e = H.keq(S, k, key)
        if e is False:
            continue
        out.append((S.and_(e, S.not_(before)), v))
        before = S.or_(before, e)
    return out


def run(S, cfg):
    from ucis.merge import DbMerger
    g = H.Gen(S, cfg)
    srcs = [g.db("d%d" % s) for s in range(cfg["src"])]
    if cfg.get("perm"):
        # arbitrary ordered selection of distinct coverpoints per cross
        for si, s in enumerate(srcs):
            cg = s[0].cgs[0]
            left = list(range(len(cg.cps)))
            pick = []
            for j in range(cfg["perm"]):
                p = S.choice("perm%d_%d" % (si, j), left)
                left.remove(p)
                pick.append(p)
            cg.crs[0].cps = pick
    if cfg.get("du"):
        for si, s in enumerate(srcs):
            for ii, (_, i) in enumerate(H.flat(s)):
                n = S.choice("dulen%d_%d" % (si, ii), cfg["du"])
                i.du = S.name("du%d_%d" % (si, ii), n, "m")
    dbs = [H.build(s) for s in srcs]
    dst = H.new_db()
    DbMerger().merge(dst, dbs)
    got = H.db_records(S, dst)
    exp = []
    for s in srcs:
        exp.extend(H.spec_records(s))
    for k, v in got:
        S.check(H.once(S, got, k), "duplicate " + H.nm(k))
        alts = []
        for cond, v2 in first(S, exp, k):
            a, b = (v[1:], v2[1:]) if k[0] in ("bin", "xbin") else (v, v2)
            alts.append(S.and_(cond, H.val_eq(S, a, b)))
        S.check(S.any(alts), "not in any source, or attributes differ from the first source: " + H.nm(k))
    for k, v in exp:
        S.check(H.present(S, got, k), "lost " + H.nm(k))
    if not cfg.get("sym") and not cfg.get("nm") and not cfg.get("du"):
        # siblings come in the order in which the sources first mention them
        S.check([k for k, v in got] == H.first_order(exp), "order of the merged items")
    if cfg.get("du"):
        for p, i in H.db_insts(dst):
            alts = []
            before = False
            for s in srcs:
                for p2, i2 in H.flat(s):
                    e = S.eq(p2, p)
                    alts.append(S.and_(e, S.not_(before), S.eq(i.getInstanceDu().getScopeName(), i2.du)))
                    before = S.or_(before, e)
            S.check(S.any(alts), "design unit of instance")
    S.observe("recs", [[k, v] for k, v in got])
