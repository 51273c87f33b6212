"""Merging sums the counts of every bin and loses, invents or duplicates none."""
import hlib as H

BOUNDS = ("1-4 source databases; up to 3 items per level (instances, covergroups, coverpoints, crosses, "
          "cover-instances) and 4 bins per point with symbolic one-character-different names over all of "
          "U+0001..U+FFFF (surrogates excluded) at one or two levels at a time; up to 10 bins with fixed names; "
          "symbolic presence; counts: every non-negative integer")
BOUNDS += H.BIGB
OUTSIDE = "longer symbolic names, more levels symbolic at once, larger databases"
ASSUMPTIONS = ["outside the dup configurations, names are unique among siblings of one kind in each source"]

W = {"lo": 1, "hi": 0xD7FF}
V = dict(W, var=[0, 1])
SLOW = ['optall']
CONFIGS = {"quick": [
    {"case": "bins3", "src": 2, "shape": {"bin": 3}, "sym": ["bin"], "nm": W, "cost": 2},
    {"case": "bins_kinds", "src": 2, "shape": {"bin": 3}, "sym": ["bin"], "kinds": [H.BIN, H.IGN, H.ILL], "nm": W},
    {"case": "bins_symkind", "src": 2, "shape": {"bin": 2}, "kinds": "sym"},
    {"case": "bins_src3", "src": 3, "shape": {"bin": 2}, "sym": ["bin"], "nm": W, "cost": 3},
    {"case": "xbins", "src": 2, "shape": {"cp": 2, "cr": 1, "xbin": 3}, "sym": ["xbin"], "nm": W, "cost": 2,
     "xkinds": [H.BIN, H.BIN, H.IGN]},
    {"case": "xkinds", "src": 2, "shape": {"cp": 2, "cr": 1, "xbin": 2}, "xkinds": "sym"},
    {"case": "points", "src": 2, "shape": {"cp": 2, "bin": 2}, "sym": ["cp"], "nm": W},
    {"case": "groups", "src": 2, "shape": {"cg": 2, "bin": 2}, "sym": ["cg"], "nm": W},
    {"case": "insts", "src": 2, "shape": {"inst": 2, "bin": 2}, "sym": ["inst"], "nm": W},
    {"case": "insts3", "src": 3, "shape": {"inst": 1, "cg": 2}, "sym": ["inst"], "nm": W},
    {"case": "coverinsts", "src": 2, "shape": {"ci": 2, "cicp": 2, "cibin": 2}, "sym": ["ci"], "nm": W},
    {"case": "ci_bins", "src": 2, "shape": {"ci": 1, "cibin": 3}, "sym": ["cibin"], "nm": W,
     "kinds": [H.BIN, H.BIN, H.ILL]},
    {"case": "ci_xbins", "src": 2, "shape": {"ci": 1, "cicp": 2, "cicr": 1, "cixbin": 2}, "sym": ["cixbin"], "nm": W},
    {"case": "crosses", "src": 2, "shape": {"cp": 2, "cr": 2, "xbin": 2}, "sym": ["cr"], "nm": W},
    {"case": "long", "src": 2, "shape": {"bin": 2}, "sym": ["bin"], "nm": {"prefix": "n" * 70, "suffix": "t" * 70}},
    {"case": "long_all", "src": 2, "shape": {"inst": 2, "cg": 2, "cp": 2, "cr": 1, "ci": 1},
     "nm": {"prefix": "n" * 300}},
    {"case": "var_bins", "src": 2, "shape": {"bin": 2}, "sym": ["bin"], "nm": dict(W, var=[1, 2]), "cost": 2},
    {"case": "var_kinds", "src": 2, "shape": {"bin": 2}, "sym": ["bin"], "nm": V, "kinds": [H.IGN, H.ILL]},
    {"case": "var_cp", "src": 2, "shape": {"cp": 2, "cr": 1}, "sym": ["cp"], "nm": V},
    {"case": "var_cg", "src": 2, "shape": {"cg": 2}, "sym": ["cg"], "nm": V},
    {"case": "var_inst", "src": 2, "shape": {"inst": 2}, "sym": ["inst"], "nm": V},
    {"case": "var_ci", "src": 2, "shape": {"ci": 2}, "sym": ["ci"], "nm": V},
    {"case": "var_cr", "src": 2, "shape": {"cp": 2, "cr": 2}, "sym": ["cr"], "nm": V},
    {"case": "var_xbin", "src": 2, "shape": {"cp": 1, "cr": 1, "xbin": 2}, "sym": ["xbin"], "nm": V},
    {"case": "optbins", "src": 3, "shape": {"bin": 2, "cp": 1}, "opt": ["bin"]},
    {"case": "optpts", "src": 2, "shape": {"cp": 2, "ci": 1, "cicp": 2}, "opt": ["cp", "cicp"]},
    {"case": "optgrp", "src": 3, "shape": {"inst": 1, "cg": 2}, "opt": ["cg"]},
    {"case": "optci", "src": 3, "shape": {"ci": 2}, "opt": ["ci"]},
    {"case": "optcr", "src": 3, "shape": {"cp": 2, "cr": 2}, "opt": ["cr"]},
    {"case": "wide", "src": 4, "shape": {"inst": 2, "cg": 2, "cp": 2, "bin": 10, "cr": 1, "xbin": 4, "ci": 2,
                                         "cibin": 2}, "kinds": [H.BIN, H.BIN, H.IGN, H.BIN, H.ILL]},
    {"case": "one", "src": 1, "shape": {"cp": 2, "bin": 3, "cr": 1, "ci": 1}, "sym": ["bin"], "nm": W},
    {"case": "same", "src": 2, "same": True, "kinds": [H.BIN, H.ILL], "xkinds": [H.BIN, H.IGN], "shape":
     {"inst": 2, "cg": 2, "cp": 2, "bin": 2, "cr": 2, "xbin": 2, "ci": 2, "cicp": 2, "cibin": 2, "cicr": 2, "cixbin": 2}},
    {"case": "same_sym", "src": 2, "same": True, "shape": {"cp": 1, "cr": 1, "ci": 1, "cicr": 1},
     "sym": ["cp", "cr"]},
    {"case": "xrefs", "src": 2, "xrefs": "any", "shape": {"cp": 2, "cr": 1}},
    {"case": "dup_bin", "src": 1, "shape": {"bin": 3, "cr": 1, "cp": 1, "xbin": 2}, "sym": ["bin", "xbin"],
     "dup": ["bin", "xbin"], "nm": W},
    {"case": "dup_ci", "src": 2, "shape": {"ci": 2, "cicp": 1, "cicr": 1}, "sym": ["ci"], "dup": ["ci"], "nm": W},
    {"case": "dup_cp", "src": 2, "shape": {"cp": 2, "bin": 1}, "sym": ["cp"], "dup": ["cp"], "nm": W},
    {"case": "dup_cr", "src": 2, "shape": {"cp": 1, "cr": 2}, "sym": ["cr"], "dup": ["cr"], "nm": W},
    {"case": "dup_cg", "src": 2, "shape": {"cg": 2, "cp": 1}, "sym": ["cg"], "dup": ["cg"], "nm": W},
    {"case": "dup_inst", "src": 2, "shape": {"inst": 2}, "sym": ["inst"], "dup": ["inst"], "nm": W},
    {"case": "dup_all", "src": 2, "shape": {"inst": 2, "cg": 2, "cp": 2, "bin": 2, "cr": 2, "ci": 2, "cicp": 2},
     "dup": ["inst", "cg", "cp", "cr", "ci", "cicp", "bin"]},
    {"case": "api", "src": 2, "shape": {"inst": 2, "cg": 2, "cp": 2, "bin": 2, "cr": 2, "xbin": 2, "ci": 2, "cicp": 2, "cibin": 2, "cicr": 2}, "api": "next", "atl": "sym", "kinds": [H.BIN, H.IGN, H.BIN, H.ILL]},
    {"case": "api1", "src": 2, "shape": {"inst": 2, "cg": 2, "cp": 2, "bin": 2, "cr": 2, "xbin": 2, "ci": 2, "cicp": 2, "cibin": 2, "cicr": 2}, "api": "next", "kinds": [H.BIN, H.IGN, H.BIN, H.ILL]},
    {"case": "many_src", "src": 20, "shape": {"cp": 1, "bin": 2, "cr": 1, "ci": 1}},
    {"case": "many_bins", "src": 2, "shape": {"cp": 1, "bin": 70, "cr": 1, "xbin": 70, "ci": 1, "cibin": 70}},
    {"case": "big_bins", "src": 2, "shape": {"cp": 1, "bin": 1100}},
    {"case": "big_xbins", "src": 2, "shape": {"cp": 1, "cr": 1, "xbin": 1100}},
    {"case": "big_cibins", "src": 2, "shape": {"cp": 1, "ci": 1, "cibin": 1100}},
    {"case": "big_cp", "src": 2, "shape": {"cp": 300, "ci": 1, "cicp": 300}},
    {"case": "big_pts", "src": 2, "shape": {"inst": 300, "cg": 1}},
    {"case": "big_cg", "src": 2, "shape": {"cg": 300, "cp": 1}},
    {"case": "big_ci", "src": 2, "shape": {"cp": 1, "ci": 300, "cr": 300}},
    {"case": "big_src", "src": 150, "shape": {"cp": 1, "cr": 1, "ci": 1}},
    {"case": "many_pts", "src": 2, "shape": {"inst": 12, "cg": 2, "cp": 4, "ci": 1}},
    {"case": "many_cp", "src": 2, "shape": {"cg": 12, "cp": 12, "ci": 1, "cicp": 2}},
    {"case": "many_ci", "src": 2, "shape": {"cp": 1, "ci": 20, "cr": 12}},
    {"case": "sub", "src": 2, "shape": {"inst": 1, "sub": 2, "scg": 2, "depth": 2}},
    {"case": "sub_sym", "src": 3, "shape": {"inst": 1, "sub": 2, "cg": 0}, "sym": ["sub"], "nm": W, "cost": 2},
    {"case": "sub_opt", "src": 2, "shape": {"inst": 1, "sub": 2, "depth": 2}, "opt": ["sub"], "cost": 2},
    {"case": "sub_same", "src": 2, "shape": {"inst": 2, "sub": 2, "depth": 2, "ci": 1, "cr": 1}, "same": True},
    {"case": "sub_dup", "src": 2, "shape": {"inst": 1, "sub": 2}, "sym": ["sub"], "dup": ["sub"], "nm": W},
    {"case": "words", "src": 1, "shape": H.ONE, "sym": H.LEVELS, "nm": H.WORDS},
    {"case": "words2", "src": 2, "shape": H.ONE, "sym": ["inst", "cg", "cp", "bin"], "nm": H.WORDS, "cost": 2},
    {"case": "words2_x", "src": 2, "shape": H.ONE, "sym": ["cr", "xbin", "cp"], "nm": H.WORDS, "cost": 2},
    {"case": "words2_ci", "src": 2, "shape": H.ONE, "sym": ["ci", "cicp", "cibin", "cixbin"], "nm": H.WORDS, "cost": 2},
    {"case": "again", "src": 2, "again": [0, 1, 0, 0], "shape": {"cp": 1, "bin": 2, "cr": 1, "ci": 1}, "sym": ["bin"], "nm": W},
    {"case": "again1", "src": 1, "again": [0, 0], "shape": {"cp": 1, "bin": 2, "cr": 1, "ci": 1}, "how": "tuple"},
] + H.pairs(lambda n, sh, **k: dict(k, case=n, src=1, shape=sh)) + \
    H.pairs2(lambda n, sh, **k: dict(k, case=n, src=2, shape=sh)), "thorough": [
    {"case": "bins4", "src": 2, "shape": {"bin": 4}, "sym": ["bin"], "nm": W, "cost": 5},
    {"case": "bins_src4", "src": 4, "shape": {"bin": 2}, "sym": ["bin"], "nm": W, "cost": 50},
    {"case": "bins3_src3", "src": 3, "shape": {"bin": 3}, "sym": ["bin"], "nm": W, "cost": 50},
    {"case": "xbins3", "src": 3, "shape": {"cp": 2, "cr": 1, "xbin": 2}, "sym": ["xbin"], "nm": W, "cost": 5},
    {"case": "pts_bins", "src": 2, "shape": {"cp": 2, "bin": 2}, "sym": ["cp", "bin"], "nm": W, "cost": 20},
    {"case": "grp_pts", "src": 2, "shape": {"cg": 2, "cp": 2}, "sym": ["cg", "cp"], "nm": W, "cost": 20},
    {"case": "inst_grp", "src": 2, "shape": {"inst": 2, "cg": 2}, "sym": ["inst", "cg"], "nm": W, "cost": 20},
    {"case": "ci_pts", "src": 2, "shape": {"ci": 2, "cicp": 2}, "sym": ["ci", "cicp"], "nm": W, "cost": 20},
    {"case": "insts_src3", "src": 3, "shape": {"inst": 2}, "sym": ["inst"], "nm": W, "cost": 5},
    {"case": "insts3x", "src": 2, "shape": {"inst": 3}, "sym": ["inst"], "nm": W, "cost": 5},
    {"case": "two_chars", "src": 2, "shape": {"bin": 3}, "sym": ["bin"], "nm": dict(W, n=3), "cost": 5},
    {"case": "symkind3", "src": 2, "shape": {"bin": 3}, "kinds": "sym", "cost": 20},
    {"case": "xsymkind", "src": 3, "shape": {"cp": 2, "cr": 1, "xbin": 2}, "xkinds": "sym", "cost": 20},
    {"case": "optall", "src": 2, "shape": {"inst": 1, "cg": 2, "cp": 2}, "opt": ["cp"], "cost": 20},
    {"case": "wide8", "src": 8, "shape": {"inst": 3, "cg": 2, "cp": 3, "bin": 12, "cr": 2, "xbin": 4, "ci": 3,
                                          "cicp": 2, "cibin": 3, "cicr": 1},
     "kinds": [H.BIN, H.BIN, H.IGN, H.BIN, H.ILL], "cost": 5},
]}


def run(S, cfg):
    from ucis.merge import DbMerger
    g = H.Gen(S, cfg)
    srcs = [g.db("d%d" % s) for s in range(cfg["src"])]
    dbs = [H.build(s) for s in srcs]
    if cfg.get("again"):                # the same database several times in the list
        dbs = [dbs[k] for k in cfg["again"]]
        srcs = [srcs[k] for k in cfg["again"]]
    dst = H.new_db()
    DbMerger().merge(dst, tuple(dbs) if cfg.get("how") == "tuple" else dbs)
    got = [r for r in H.db_records(S, dst) if r[0][0] in ("bin", "xbin")]
    exp = []
    for s in srcs:
        exp.extend([r for r in H.spec_records(s) if r[0][0] in ("bin", "xbin")])
    for k, v in got:
        S.check(S.eq(v[0], H.total(S, exp, k)), "count of " + H.nm(k))
        S.check(H.once(S, got, k), "duplicate " + H.nm(k))
        S.check(H.present(S, exp, k), "invented " + H.nm(k))
    for k, v in exp:
        S.check(H.present(S, got, k), "lost " + H.nm(k))
    S.observe("bins", [v[0] for k, v in got])
