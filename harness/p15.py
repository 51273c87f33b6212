"""YAML: type coverage is derived from the instances; documents that do not match the format are refused."""
import hlib as H
import ylib as Y

BOUNDS = ("as P14 for the type data; refusal: one required key removed, or one value replaced by a value of another "
          "type (text, number, boolean, list, mapping, null), anywhere in a document of every construct; crosses "
          "naming a symbolic coverpoint")
BOUNDS += H.BIGB
OUTSIDE = "YAML syntax itself (PyYAML), longer symbolic names, larger documents"
ASSUMPTIONS = ["names are unique among siblings of one kind (bins: per list)",
               "all instances of a covergroup give a coverpoint/cross the same threshold",
               "PyYAML, jsonschema and python_jsonschema_objects are modelled; sampled paths are replayed on them"]

from p14 import X, V, B, CI, c

CONFIGS = {"quick": [
    c("plain", dict(CI, ci=3, cg=2), samal=True),
    c("bins", dict(CI, cicp=1, cicr=0), sym=["cibin"], nm=X, samal=True),
    c("kinds", dict(CI, cicp=1, cicr=0), kinds="sym", samal=True, cost=2),
    c("kinds3", dict(CI, ci=3, cibin=4), kinds=[H.BIN, H.IGN, H.ILL, H.IGN], emptylists=True, samal=True),
    c("kind_names", dict(CI, cicp=1, cicr=0, cibin=3), sym=["cibin"], kinds=[H.BIN, H.IGN, H.ILL], nm=X, samal=True,
      cost=3),
    c("bins_var", dict(CI, cicp=1, cicr=0), sym=["cibin"], nm=V, samal=True, cost=3),
    c("ill_var", dict(CI, cicp=1, cicr=0), sym=["cibin"], kinds=[H.ILL], nm=V, samal=True, cost=3),
    c("ign_var", dict(CI, cicp=1, cicr=0), sym=["cibin"], kinds=[H.IGN], nm=V, samal=True, cost=3),
    c("points_var", dict(CI, cicr=0), sym=["cicp"], nm=V, atl=1, cost=2),
    c("cross_var", dict(CI, cicp=2, cixbin=1), sym=["cicr"], nm=V, atl=1, cost=2),
    c("xbin_var", dict(CI, cicp=1), sym=["cixbin"], nm=V, atl=1, cost=2),
    c("points", dict(CI, cicr=0), sym=["cicp"], nm=X, atl=1, cost=2),
    c("points_x", dict(CI, cicp=1, ci=2), sym=["cicp"], nm=X, atl=1, xrefs="any", cost=2),
    c("crosses", dict(CI, cicr=2, cixbin=1), sym=["cicr"], nm=X, atl=1),
    c("xbins", dict(CI), sym=["cixbin"], nm=X, samal=True),
    c("insts", dict(CI, ci=3, cicp=1), sym=["ci"], nm=X, samal=True),
    c("groups", dict(CI, ci=2, cg=2), sym=["cg"], nm=X, samal=True),
    c("ways", dict(CI, cicp=4, cicr=2), ways=3, samal=True),
    c("never", dict(CI), atleast="never", weight="never"),
    c("optpts", dict(CI, cicp=3, cicr=0), opt=["cicp"], samal=True),
    c("optbins", dict(CI, cicp=1, cicr=0, cibin=3), opt=["cibin"], samal=True, needal=True),
    c("optx", dict(CI, cicr=2, cixbin=2), opt=["cixbin"], nokeys=True, atl=1, cost=2),
    c("noinst", dict(CI, cg=2, ci=0), noinst=True),
    c("drop", dict(CI, ci=1, cicr=1, cibin=2), kinds=[H.BIN, H.IGN], bad="drop"),
    c("retype", dict(CI, ci=1, cicr=1, cibin=2), kinds=[H.BIN, H.ILL], bad="type", cost=3),
    c("xref", dict(CI, ci=2, cicr=1, cibin=1), bad="xref", nm=X),
    c("xref_names", dict(CI, ci=2, cicp=1, cicr=1, cibin=1, cixbin=1), bad="xref", nm=X, sym=["cicp"], atl=1, cost=2),
    c("xref_groups", dict(CI, cg=2, ci=1, cicp=1, cicr=1, cibin=1, cixbin=1), bad="xref", nm=X, sym=["cicp"], atl=1, cost=2),
    c("xref_three", dict(CI, ci=3, cicp=1, cicr=1, cibin=1, cixbin=1), bad="xref", nm=X, sym=["cicp"], atl=1, cost=2),
    c("same", dict(CI, ci=2, cg=2, cicp=2, cibin=2, cicr=2, cixbin=2), same=True, kinds=[H.BIN, H.ILL], samal=True),
    c("xrefs", dict(CI, ci=1), xrefs="any", samal=True),
    c("xrep", dict(CI, ci=2, cicr=2), xrefs="rep", ways=3, samal=True),
    c("dup", dict(CI, ci=3, cicr=0, cicp=1), sym=["ci"], dup=["ci"], nm=X, samal=True),
    c("long", dict(CI), nm={"prefix": "n" * 300}, samal=True),
    c("words", H.YONE, sym=H.YLEV, nm=H.WORDS),
    c("mixed", dict(CI, cicr=0)),
    c("mixed_x", dict(CI, cicp=1, cibin=1, ci=3)),
    c("alias_lists", dict(CI, ci=2), alias="lists", samal=True),
    c("alias_points", dict(CI, ci=2), alias="points", samal=True),
    c("alias_points3", dict(CI, ci=3, cicr=1), alias="points", kinds=[H.BIN, H.ILL], samal=True),
    c("alias_crosses", dict(CI, ci=2, cicr=2), alias="crosses", samal=True),
    c("alias_bins", dict(CI, ci=2), alias="bins", samal=True),
    c("alias_bin", dict(CI, ci=2), alias="bin", samal=True),
    c("alias_groups", dict(CI, cg=2, ci=2), alias="groups", samal=True),
] + H.ypairs(c, samal=True) + H.ybigs(c, samal=True), "thorough": [
    c("bins_ci3", dict(CI, ci=3, cicp=1, cicr=0), sym=["cibin"], nm=X, samal=True, cost=20),
    c("bins3", dict(CI, ci=2, cicp=1, cicr=0, cibin=3), sym=["cibin"], nm=X, samal=True, cost=20),
    c("pts_ci3", dict(CI, ci=3, cicr=0), sym=["cicp"], nm=X, atl=1, cost=20),
    c("xb_ci3", dict(CI, ci=3), sym=["cixbin"], nm=X, samal=True, cost=20),
    c("cr_ci3", dict(CI, ci=3, cicr=2, cixbin=1), sym=["cicr"], nm=X, atl=1, cost=20),
    c("kinds3s", dict(CI, cicp=1, cicr=0, cibin=3), kinds="sym", samal=True, cost=20),
    c("wide", dict(CI, cg=4, ci=4, cicp=4, cibin=8, cicr=3, cixbin=6), kinds=[H.BIN, H.IGN, H.ILL], ways=3,
      samal=True, cost=5),
]}


def same_thresholds(spec):
    """every instance uses the thresholds of the first one (points matched by position)"""
    for i in spec:
        for g in i.cgs:
            for ci in g.insts[1:]:
                for a, b in list(zip(g.insts[0].cps, ci.cps)) + list(zip(g.insts[0].crs, ci.crs)):
                    for x in b.bins:
                        x.at_least = a.bins[0].at_least if a.bins else x.at_least


def paths(d, p=()):
    """(container, key, path) of every value of a document"""
    out = []
    if isinstance(d, dict):
        for k in list(d.keys()):
            out.append((d, k, p + (k,)))
            out.extend(paths(d[k], p + (k,)))
    elif isinstance(d, list):
        for k in range(len(d)):
            out.append((d, k, p + (k,)))
            out.extend(paths(d[k], p + (k,)))
    return out


REQ = ("name", "count", "bins", "coverpoints")


def mutate(S, d, how):
    alls = paths(d)
    if how == "drop":
        cand = []
        for c_, k, p in alls:
            if k == "name" or k == "count" or (k == "bins" and "coverpoints" in p and "crosses" not in p) or \
                    (k == "coverpoints" and "crosses" in p):
                cand.append((c_, k, p))
        c_, k, p = S.choice("where", cand)
        del c_[k]
        return p
    cand = [x for x in alls if len(x[2]) > 1]
    c_, k, p = S.choice("where", cand)
    old = c_[k]
    if isinstance(old, dict):
        vals = [1, "x", [], True]
    elif isinstance(old, list):
        vals = [1, "x", {}, False]
    elif S.is_str(old):
        vals = [1, [], {}, True]
    else:
        vals = ["x", "1", [], {}, True, 1.5]
    c_[k] = S.choice("val", vals)
    return p


def run(S, cfg):
    spec = H.uniform_atl(H.Gen(S, cfg).db("d"))
    if cfg.get("samal"):
        same_thresholds(spec)
    if cfg.get("needal"):
        for ci in spec[0].cgs[0].insts:
            S.assume(len(ci.cps[0].bins) > 0)
        same_thresholds(spec)
    d = Y.doc(S, spec, cfg)
    bad = cfg.get("bad")
    if bad == "xref":
        g = S.choice("xgroup", list(range(len(spec[0].cgs))))
        j = S.choice("xinst", list(range(len(spec[0].cgs[g].insts))))
        ci = spec[0].cgs[g].insts[j]
        ref = S.name("ref", 1, "p", "z", lo=33, hi=126)
        d["coverage"]["covergroups"][g]["instances"][j]["crosses"][0]["coverpoints"][0] = ref
        try:
            db = Y.read(S, d)
            err = False
        except Exception:
            err = True
        known = S.any([S.eq(ref, p.name) for p in ci.cps])
        S.check(S.eq(known, not err), "cross naming a coverpoint that is not in its instance")
        S.observe("err", err)
        return
    if bad:
        p = mutate(S, d, bad)
        try:
            db = Y.read(S, d)
            err = False
        except Exception:
            err = True
        S.check(err, "document accepted although %s of %s" % (bad, "/".join([str(x) for x in p])))
        S.observe("err", err)
        return
    db = Y.read(S, d)
    got = Y.strip(H.db_records(S, db))
    spec[0].name = [k[1] for k, v in got if k[0] == "inst"][0]
    H.check_types(S, got, spec, "type")
    for g in spec[0].cgs:
        S.check(H.once(S, got, ["cg", spec[0].name, g.name]), "covergroup type")
    S.observe("recs", [[k, v] for k, v in got])
