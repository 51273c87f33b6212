"""Merging leaves its sources alone and does not depend on order, grouping or earlier merges."""
import hlib as H

BOUNDS = ("2-4 source databases, up to 2 items per level with symbolic names at one level at a time, all "
          "permutations of the source list (2 and 3 sources), every split into two groups (3 sources), two "
          "consecutive merges by one merger; counts/thresholds/weights: every non-negative integer")
BOUNDS += H.BIGB
OUTSIDE = "more sources, longer names; attributes other than counts may come from a different source when the order changes"
ASSUMPTIONS = ["names are unique among siblings of one kind in each source"]

W = {"lo": 1, "hi": 0xD7FF}
ALL = {"inst": 2, "cg": 2, "cp": 2, "bin": 2, "cr": 1, "xbin": 2, "ci": 2, "cicp": 1, "cibin": 2}


def c(case, src, shape, modes, **k):
    d = {"case": case, "src": src, "shape": shape, "modes": modes, "atl": "sym", "wt": "sym"}
    d.update(k)
    return d


CONFIGS = {"quick": [
    c("src_bins", 2, {"bin": 2, "cp": 1}, ["src", "reuse"], sym=["bin"], nm=W),
    c("src_wide", 3, ALL, ["src", "alias", "reuse"]),
    c("src_pts", 2, {"cp": 2, "cr": 1}, ["src", "reuse"], sym=["cp"], nm=W),
    c("src_inst", 2, {"inst": 2}, ["src", "reuse"], sym=["inst"], nm=W),
    c("src_ci", 2, {"ci": 2}, ["src", "reuse"], sym=["ci"], nm=W),
    c("perm2_bins", 2, {"bin": 2}, ["perm"], sym=["bin"], nm=W, kinds=[H.BIN, H.ILL]),
    c("perm3_wide", 3, ALL, ["perm"], kinds=[H.BIN, H.IGN]),
    c("perm3_bins", 3, {"bin": 1}, ["perm"], sym=["bin"], nm=W),
    c("perm2_var", 2, {"bin": 2}, ["perm", "src"], sym=["bin"], nm=dict(W, var=[0, 1]), cost=2),
    c("group3_var", 3, {"cp": 1, "bin": 1}, ["group"], sym=["cp"], nm=dict(W, var=[0, 1])),
    c("perm3_opt", 3, {"cp": 2, "bin": 1}, ["perm"], opt=["cp"]),
    c("perm3_grp", 3, {"cg": 1, "bin": 2}, ["perm"], sym=["cg"], nm=W),
    c("perm3_ci", 3, {"ci": 1, "bin": 2}, ["perm"], sym=["ci"], nm=W),
    c("perm3_inst", 3, {"inst": 1, "bin": 2}, ["perm"], sym=["inst"], nm=W),
    c("group3", 3, {"bin": 2, "ci": 1}, ["group"], sym=["bin"], nm=W, cost=3),
    c("group3_opt", 3, {"cp": 2, "cr": 1}, ["group"], opt=["cp"], ways=0),
    c("group3_wide", 3, ALL, ["group"]),
    c("group4_wide", 4, {"inst": 1, "cp": 2, "cr": 1, "ci": 1}, ["group"]),
    c("double", 2, {"bin": 2, "cr": 1, "cp": 2, "ci": 1}, ["double"], sym=["bin"], nm=W),
    c("alias1", 1, dict(ALL, cicr=1, cicp=2), ["src", "alias"], kinds=[H.BIN, H.IGN, H.ILL]),
    c("alias_opt", 2, {"inst": 2, "cg": 1, "cp": 2, "bin": 1}, ["alias"], opt=["cp"], cost=2),
    c("alias_opt2", 2, {"inst": 1, "cg": 2, "ci": 2, "cp": 1}, ["alias"], opt=["ci"], cost=2),
    c("alias_opt3", 2, {"inst": 2, "cg": 1, "cp": 2, "cr": 1}, ["alias", "reuse"], opt=["inst", "cr"], cost=2),
    c("same", 2, dict(ALL, cicr=1, cicp=2), ["src", "perm", "reuse", "group"], same=True, kinds=[H.BIN, H.ILL]),
    c("sub", 3, {"inst": 2, "sub": 2, "depth": 2, "cr": 1, "ci": 1}, ["src", "alias", "reuse", "perm", "group"]),
    c("sub_sym", 2, {"inst": 1, "sub": 2, "cg": 0}, ["src", "reuse", "perm"], sym=["sub"], nm=W, cost=2),
    c("sub_opt", 3, {"inst": 1, "sub": 1, "depth": 2}, ["perm", "group"], opt=["sub"], cost=2),
    c("recover", 2, dict(ALL, cicr=1, cicp=2), ["recover"], kinds=[H.BIN, H.IGN, H.ILL]),
    c("recover_sub", 2, {"inst": 1, "sub": 1, "depth": 2, "cr": 1, "ci": 1}, ["recover"]),
    c("recover_sym", 2, {"cp": 1, "bin": 2, "ci": 1}, ["recover"], sym=["bin"], nm=W),
    c("recover_cp", 2, {"cp": 2, "bin": 1, "cr": 1}, ["recover"], sym=["cp"], nm=W),
    c("recover_big", 2, {"inst": 1, "cg": 2, "cp": 30, "cr": 4, "ci": 6}, ["recover"]),
    c("words", 2, H.ONE, ["src", "perm", "reuse"], sym=["inst", "cg", "cp"], nm=H.WORDS, cost=2),
    c("words_ci", 2, H.ONE, ["src", "perm", "reuse"], sym=["ci", "cicp", "cibin"], nm=H.WORDS, cost=2),
] + H.pairs(lambda n, sh, **k: c(n, 1, sh, ["src", "reuse", "alias"], **k)) + \
    H.pairs2(lambda n, sh, **k: c(n, 2, sh, ["src", "perm", "reuse"], **k)) + \
    H.bigs(lambda n, sh, **k: c(n, 2, sh, ["src", "alias", "reuse", "perm"], **k)), "thorough": [
    c("src_bins3", 3, {"bin": 2}, ["src", "reuse"], sym=["bin"], nm=W, cost=9),
    c("perm3_bins2", 3, {"bin": 2}, ["perm"], sym=["bin"], nm=W, cost=9),
    c("perm3_cp2", 3, {"cp": 2}, ["perm"], sym=["cp"], nm=W, cost=9),
    c("perm3_cr2", 3, {"cp": 2, "cr": 2}, ["perm"], sym=["cr"], nm=W, cost=9),
    c("perm3_xb", 3, {"cp": 2, "cr": 1, "xbin": 2}, ["perm"], sym=["xbin"], nm=W, cost=9),
    c("group3_cp", 3, {"cp": 2}, ["group"], sym=["cp"], nm=W, cost=9),
    c("group3_inst", 3, {"inst": 2}, ["group"], sym=["inst"], nm=W, cost=9),
    c("group3_ci", 3, {"ci": 2}, ["group"], sym=["ci"], nm=W, cost=9),
    c("perm4_wide", 4, {"inst": 2, "cp": 2, "bin": 3, "cr": 1, "ci": 1}, ["perm"], cost=9),
    c("src_wide6", 6, ALL, ["src", "alias", "reuse", "group"], cost=9),
    c("kinds", 2, {"bin": 2}, ["perm", "src"], kinds="sym", cost=9),
]}


def perms(l):
    if len(l) <= 1:
        return [l]
    out = []
    for i in range(len(l)):
        for p in perms(l[:i] + l[i + 1:]):
            out.append([l[i]] + p)
    return out


def merged(dbs, merger=None):
    from ucis.merge import DbMerger
    dst = H.new_db()
    (merger or DbMerger()).merge(dst, dbs)
    return dst


def disturb(db):
    """change every part of a database"""
    from ucis.scope_type_t import ScopeTypeT
    from ucis.cover_type_t import CoverTypeT
    al = CoverTypeT.CVGBIN | CoverTypeT.IGNOREBIN | CoverTypeT.ILLEGALBIN

    def pts(g):
        g.setWeight(g.getWeight() + 3)
        cps = list(g.scopes(ScopeTypeT.COVERPOINT))
        for p in cps + list(g.scopes(ScopeTypeT.CROSS)):
            p.setWeight(p.getWeight() + 3)
            for b in p.coverItems(al):
                b.incrementCover(7)
            p.createBin("late", None, 1, 5, "late", CoverTypeT.CVGBIN)
    for _, i in H.db_insts(db):
        i.setWeight(i.getWeight() + 3)
        for cg in list(i.scopes(ScopeTypeT.COVERGROUP)):
            pts(cg)
            for ci in list(cg.scopes(ScopeTypeT.COVERINSTANCE)):
                pts(ci)
            cg.createCoverpoint("late", None, 1, 0)
            cg.createCoverInstance("late", None, 1, 0)
        i.createCovergroup("late", None, 1, 0)
        i.createInstance("late", None, 1, 0, ScopeTypeT.INSTANCE, i.getInstanceDu(), 0)


def broken(S, db):
    """somewhere in the database, a cross of a coverpoint that belongs to another covergroup"""
    from ucis.scope_type_t import ScopeTypeT
    gs = []
    for _, i in H.db_insts(db):
        for cg in i.scopes(ScopeTypeT.COVERGROUP):
            gs.append(cg)
            gs.extend(list(cg.scopes(ScopeTypeT.COVERINSTANCE)))
        other = i
    far = other.createCovergroup("far", None, 1, 0).createCoverpoint("faraway", None, 1, 0)
    S.choice("where", gs).createCross("farx", None, 1, 0, [far])


def counts(recs):
    """structure and counts only"""
    return [(k, v[:1]) if k[0] in ("bin", "xbin") else (k, []) for k, v in recs]


def run(S, cfg):
    from ucis.merge import DbMerger
    g = H.Gen(S, cfg)
    srcs = [g.db("d%d" % s) for s in range(cfg["src"])]
    dbs = [H.build(s) for s in srcs]
    modes = cfg["modes"]
    base = None
    if "src" in modes:
        before = [H.db_records(S, d) for d in dbs]
        merged(dbs)
        for d, s, b in zip(dbs, srcs, before):
            now = H.db_records(S, d)
            H.seq_records(S, now, b, "source changed by merge")
            H.same_records(S, now, H.spec_records(s), "source")
    base = merged(dbs)
    want = H.db_records(S, base)
    if "alias" in modes:
        # later changes to a source must not show through in the merged database
        for d in dbs:
            disturb(d)
        H.seq_records(S, H.db_records(S, base), want, "merged database shares state with a source")
        # and the other way round
        dbs = [H.build(s) for s in srcs]
        before = [H.db_records(S, d) for d in dbs]
        disturb(merged(dbs))
        for d, b in zip(dbs, before):
            H.seq_records(S, H.db_records(S, d), b, "source shares state with the merged database")
    if "reuse" in modes:
        m = DbMerger()
        merged([dbs[-1]], m)
        H.seq_records(S, H.db_records(S, merged(dbs, m)), want, "second merge by the same merger")
        H.seq_records(S, H.db_records(S, merged(dbs)), want, "repeated merge")
        H.seq_records(S, H.db_records(S, base), want, "earlier result changed by a later merge")
    if "recover" in modes:
        # a merge that fails halfway leaves neither the merger nor the sources in a state that shows in a later merge
        m = DbMerger()
        bad = H.build(g.db("bad"))
        broken(S, bad)
        before = [H.db_records(S, d) for d in dbs]
        for l in ([bad], dbs[:1] + [bad]):
            try:
                merged(l, m)
            except Exception:
                pass
        H.seq_records(S, H.db_records(S, merged(dbs, m)), want, "merge by a merger that failed before")
        for d, b in zip(dbs, before):
            H.seq_records(S, H.db_records(S, d), b, "source changed by a merge that failed")
    if "perm" in modes:
        for p in perms(list(range(len(dbs))))[1:]:
            r = H.db_records(S, merged([dbs[k] for k in p]))
            H.same_records(S, counts(r), counts(want), "merge order %s" % (p,))
    if "group" in modes:
        for cut in range(1, len(dbs)):
            r = H.db_records(S, merged([merged(dbs[:cut]), merged(dbs[cut:])]))
            H.same_records(S, r, want, "merging in two groups at %d" % cut)
    if "double" in modes:
        r = H.db_records(S, merged(dbs + dbs))
        H.same_records(S, counts(r), [(k, [S.wsum([(True, v[0]), (True, v[0])])] if v else [])
                                      for k, v in counts(want)], "merging every source twice")
