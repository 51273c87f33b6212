"""YAML documents for the readers."""
import copy
import hlib as H


def bin_doc(b):
    return {"name": b.name, "count": b.count}


def point_doc(S, p, cfg, tag):
    d = {"name": p.name}
    # atleast: always, never or symbolically present (absent means 1)
    how = cfg.get("atleast", "always")
    if p.bins and (how == "always" or (how == "flag" and S.flag("al_" + tag))):
        d["atleast"] = p.bins[0].at_least
    else:
        for b in p.bins:
            b.at_least = 1
    return d


def cg_doc(S, g, cfg, tag):
    """document of a covergroup type; kinds of cross bins are ordinary only"""
    d = {"name": g.name}
    if cfg.get("weight", "always") == "always" or (cfg.get("weight") == "flag" and S.flag("w_" + tag)):
        d["weight"] = g.weight
    else:
        g.weight = 1
    if g.insts or not cfg.get("noinst"):
        d["instances"] = [ci_doc(S, ci, cfg, "%s_%d" % (tag, k)) for k, ci in enumerate(g.insts)]
    return d


def ci_doc(S, ci, cfg, tag):
    d = {"name": ci.name}
    if ci.cps or not cfg.get("nokeys"):
        l = []
        for k, p in enumerate(ci.cps):
            q = point_doc(S, p, cfg, "%s_p%d" % (tag, k))
            q["bins"] = [bin_doc(b) for b in p.bins if b.kind == H.BIN]
            for kind, key in ((H.IGN, "ignorebins"), (H.ILL, "illegalbins")):
                bs = [bin_doc(b) for b in p.bins if b.kind == kind]
                if bs or cfg.get("emptylists"):
                    q[key] = bs
            l.append(q)
        d["coverpoints"] = l
    if ci.crs or not cfg.get("nokeys"):
        l = []
        for k, x in enumerate(ci.crs):
            q = point_doc(S, x, cfg, "%s_x%d" % (tag, k))
            q["coverpoints"] = [ci.cps[j].name for j in x.cps]
            if x.bins or not cfg.get("nokeys"):
                q["bins"] = [bin_doc(b) for b in x.bins]
            l.append(q)
        d["crosses"] = l
    return d


def doc(S, insts, cfg):
    d = {"coverage": {"covergroups": [cg_doc(S, g, cfg, "g%d" % k) for k, g in enumerate(insts[0].cgs)]}}
    alias(insts[0].cgs, d["coverage"]["covergroups"], cfg.get("alias"))
    return d


def alias(gs, ds, how):
    """one node of the document used in two places (YAML: anchor and alias); the data follow"""
    if how is None:
        return
    for g, d in zip(gs, ds):
        a, b = g.insts[0], g.insts[-1]
        da, db = d["instances"][0], d["instances"][-1]
        if how == "lists":
            b.cps, b.crs = a.cps, a.crs
            db["coverpoints"], db["crosses"] = da["coverpoints"], da["crosses"]
        elif how == "points":
            b.cps[0] = a.cps[0]
            db["coverpoints"][0] = da["coverpoints"][0]
            for x, y in zip(b.crs, db["crosses"]):
                y["coverpoints"] = [b.cps[j].name for j in x.cps]
        elif how == "crosses":
            b.cps, b.crs = a.cps, [a.crs[0]] + b.crs[1:]
            db["coverpoints"] = da["coverpoints"]
            db["crosses"][0] = da["crosses"][0]
            for x, y in list(zip(b.crs, db["crosses"]))[1:]:
                y["coverpoints"] = [b.cps[j].name for j in x.cps]
        elif how == "bins":
            for i, di in zip(g.insts, d["instances"]):
                for p, dp in list(zip(i.cps, di["coverpoints"]))[1:]:
                    p.bins = i.cps[0].bins
                    for k in ("bins", "ignorebins", "illegalbins", "atleast"):
                        if k in di["coverpoints"][0]:
                            dp[k] = di["coverpoints"][0][k]
        elif how == "bin":
            for i, di in zip(g.insts, d["instances"]):
                for p, dp in zip(i.cps, di["coverpoints"]):
                    # (the threshold is the point's, not part of the shared node)
                    q, al = copy.copy(a.cps[0].bins[0]), p.bins[0].at_least
                    p.bins[0] = q
                    q.at_least = al
                    dp["bins"][0] = da["coverpoints"][0]["bins"][0]
    if how == "groups":
        gs[-1].insts = gs[0].insts
        ds[-1]["instances"] = ds[0]["instances"]


def read(S, d, how="loads", encs=None):
    text = S.yaml_text(d)
    if how == "loads":
        from ucis.yaml.yaml_reader import YamlReader
        return YamlReader().loads(text)
    p = S.path("a.yaml")
    S.write_text(p, text, S.choice("enc", encs) if encs else "utf-8")
    if how == "rgy":
        from ucis.rgy import FormatRgy
        return FormatRgy.inst().getDatabaseDesc("yaml").fmt_if().read(p)
    from ucis.yaml.yaml_reader import YamlReader
    with open(p, "r") as fp:
        return YamlReader().load(fp)


def strip(recs):
    """cover-instance weights are not in the document; the instance scope has a fixed name"""
    out = []
    for k, v in recs:
        if k[0] in ("inst", "ci"):
            v = []
        out.append((k, v))
    return out
