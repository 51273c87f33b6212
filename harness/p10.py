"""Writing a database as XML and reading it back preserves the coverage data."""
import hlib as H

BOUNDS = ("up to 3 items per level (instances, covergroups, cover-instances, coverpoints, crosses, bins) and up to 6 "
          "bins with fixed names; symbolic names at one or two levels at a time: one arbitrary XML character "
          "(U+0020..U+D7FF, tab, newline, carriage return) inside the name; every bin kind for coverpoint and cross "
          "bins; counts, weights and thresholds: every non-negative integer; "
          "locale encodings UTF-8, ISO-8859-1 and ASCII")
BOUNDS += H.BIGB
OUTSIDE = "longer symbolic names, larger databases, design-unit names and source locations (not in the file)"
ASSUMPTIONS = ["names are unique among siblings of one kind",
               "all bins of one point share one threshold (the format has one per point)",
               "every covergroup has a coverpoint and every coverpoint a bin (schema)",
               "lxml's serializer, parser and schema validator are modelled (symx/fake_lxml.py); sampled paths are "
               "replayed on the real lxml"]

X = {"lo": 32, "hi": 0xD7FF, "suffix": "z"}
WS = {"alphabet": "\t\n\r <&>\"'", "suffix": "z"}
B = {"atl": "sym", "wt": "sym", "atl_lo": 0}


def c(case, shape, **k):
    d = {"case": case, "shape": shape}
    d.update(B)
    d.update(k)
    return d


CONFIGS = {"quick": [
    c("bins", {"bin": 3}, sym=["bin"], nm=X, kinds=[H.BIN, H.IGN, H.ILL]),
    c("kinds", {"bin": 2, "cp": 1, "cr": 1, "xbin": 2}, kinds="sym", xkinds="sym", cost=2),
    c("points", {"cp": 2, "cr": 1}, sym=["cp"], nm=X),
    c("crosses", {"cp": 2, "cr": 2, "xbin": 2}, sym=["cr"], nm=X),
    c("xbins", {"cp": 2, "cr": 1, "xbin": 3}, sym=["xbin"], nm=X, xkinds=[H.BIN, H.IGN, H.ILL]),
    c("groups", {"cg": 3}, sym=["cg"], nm=X),
    c("insts", {"inst": 2, "cg": 2}, sym=["inst"], nm=X),
    c("ci", {"ci": 3}, sym=["ci"], nm=X),
    c("ci_points", {"ci": 2, "cicp": 2, "cicr": 1}, sym=["cicp"], nm=X, cost=2),
    c("ci_bins", {"ci": 2, "cibin": 2}, sym=["cibin"], nm=X),
    c("ci_kinds", {"ci": 2, "cicp": 1, "cibin": 2}, kinds="sym", cost=2),
    c("ci_xbins", {"ci": 2, "cicp": 2, "cicr": 1, "cixbin": 2}, sym=["cixbin"], nm=X),
    c("ci_cr", {"ci": 2, "cicp": 2, "cicr": 2}, sym=["cicr"], nm=X),
    c("markup", {"cp": 2, "cr": 1, "ci": 1}, sym=["cg", "cp", "bin", "ci"], nm=WS, cost=3),
    c("var_bins", {"bin": 3}, sym=["bin"], nm=dict(X, suffix="", lo=33, var=[0, 1]), kinds=[H.BIN, H.IGN]),
    c("var_pts", {"cp": 2, "cr": 1}, sym=["cp", "cr"], nm=dict(X, suffix="", lo=33, var=[0, 1]), cost=2),
    c("var_ci", {"ci": 2, "cicp": 1}, sym=["ci", "cicp"], nm=dict(X, suffix="", lo=33, var=[0, 1]), cost=2),
    c("var_cibin", {"ci": 2, "cibin": 2}, sym=["cibin"], nm=dict(X, suffix="", lo=33, var=[0, 1]), cost=2),
    c("var_cg", {"cg": 2, "inst": 2}, sym=["cg", "inst"], nm=dict(X, suffix="", lo=33, var=[0, 1]), cost=2),
    c("ways3", {"cp": 4, "cr": 2, "ci": 2, "cicp": 4, "cicr": 2}, ways=3),
    c("wide", {"inst": 3, "cg": 3, "cp": 2, "bin": 6, "cr": 2, "xbin": 3, "ci": 3, "cicp": 2, "cicr": 1},
      kinds=[H.BIN, H.IGN, H.ILL], xkinds=[H.BIN, H.ILL, H.IGN]),
    c("opt_ci", {"ci": 3, "cicp": 2}, opt=["ci"]),
    c("opt_pts", {"ci": 2, "cicp": 3, "cp": 3}, opt=["cicp"], need=True),
    c("writer", {"cp": 2, "bin": 2, "cr": 1, "ci": 1}, w="writer", r="reader"),
    c("stream", {"cp": 2, "bin": 2, "cr": 1, "ci": 1}, w="stream", r="stream"),
    c("loads", {"cp": 2, "bin": 2, "cr": 1, "ci": 1}, w="writer", r="loads"),
    c("rgy", {"cp": 2, "bin": 2, "cr": 1, "ci": 1}, w="xmlucis", r="rgy"),
    c("same", {"inst": 2, "cg": 2, "cp": 2, "bin": 2, "cr": 2, "xbin": 2, "ci": 2, "cicp": 2, "cibin": 2, "cicr": 2, "cixbin": 2}, same=True,
      kinds=[H.BIN, H.ILL], xkinds=[H.BIN, H.IGN]),
    c("xrefs", {"cp": 2, "cr": 1, "ci": 1, "cicp": 2, "cicr": 1}, xrefs="any"),
    c("writer2", {"cp": 2, "cr": 1, "ci": 2}, w="writer2", sym=["cg"], nm=X),
    c("writer2_sub", {"inst": 1, "sub": 2, "cp": 1}, w="writer2", sym=["sub"], nm=X),
    c("xrep", {"cp": 2, "cr": 2, "ci": 2, "cicp": 2, "cicr": 2}, xrefs="rep", ways=3),
    c("dup", {"ci": 3, "cicp": 1}, sym=["ci"], dup=["ci"], nm=X),
    c("long", {"inst": 2, "cg": 2, "cp": 2, "cr": 1, "ci": 2}, nm={"prefix": "n" * 300}),
    c("astral", {"cp": 1, "bin": 1, "cr": 1, "ci": 1}, sym=["cp", "bin", "cr", "cicp", "ci", "cg"], nm={"lo": 0x10000, "hi": 0x10FFFF}),
    c("api", {"inst": 2, "cg": 2, "cp": 2, "bin": 2, "cr": 2, "xbin": 2, "ci": 2, "cicp": 2, "cibin": 2, "cicr": 2}, api="next", kinds=[H.BIN, H.IGN, H.BIN, H.ILL]),
    c("many_bins", {"cp": 1, "bin": 70, "cr": 1, "xbin": 70}, kinds=[H.BIN, H.IGN, H.BIN, H.ILL]),
    c("many", {"inst": 12, "cg": 2, "cp": 4, "ci": 2}),
    c("many_ci", {"cp": 12, "ci": 20, "cr": 12}),
    c("sub", {"inst": 2, "cg": 2, "sub": 2, "scg": 2, "depth": 2, "cr": 1, "ci": 1}),
    c("sub_sym", {"inst": 1, "sub": 2, "cg": 0, "depth": 2}, sym=["sub"], nm=X, cost=2),
    c("sub_inst", {"inst": 2, "sub": 2}, sym=["inst", "sub"], nm=X, cost=2),
    c("sub_opt", {"inst": 2, "sub": 1, "depth": 2, "cg": 1, "scg": 0}, opt=["sub"], cost=2),
    c("sub_deep", {"inst": 2, "sub": 1, "depth": 6}),
    c("sub_same", {"inst": 2, "sub": 2, "depth": 2, "ci": 1}, same=True),
    c("locale", {"cp": 2, "cr": 1, "ci": 1}, locale=H.LOCALES, sym=["inst", "cg", "bin", "ci"], nm=X),
    c("locale_x", {"cp": 2, "cr": 1}, w="xmlucis", r="rgy", locale=H.LOCALES, sym=["cg", "cp"], nm=X),
    c("words", H.ONE, sym=H.LEVELS, nm=H.WORDS),
    c("words_t", {"cr": 1}, sym=H.LEVELS, nm=H.WORDS),
] + H.pairs(c, hi=0xD7FF) + H.bigs(c), "thorough": [
    c("bins4", {"bin": 4}, sym=["bin"], nm=X, kinds=[H.BIN, H.IGN, H.BIN, H.ILL], cost=5),
    c("bins_3ch", {"bin": 3}, sym=["bin"], nm=dict(X, n=3), cost=5),
    c("kinds3", {"bin": 3, "ci": 1, "cibin": 3}, kinds="sym", cost=20),
    c("ci3_bins", {"ci": 3, "cibin": 2}, sym=["cibin"], nm=X, cost=20),
    c("ci3_pts", {"ci": 3, "cicp": 2}, sym=["cicp"], nm=X, cost=20),
    c("ci3_cr", {"ci": 3, "cicp": 2, "cicr": 2}, sym=["cicr"], nm=X, cost=20),
    c("ci3_xbins", {"ci": 3, "cicp": 2, "cicr": 1, "cixbin": 2}, sym=["cixbin"], nm=X, cost=20),
    c("pts_bins", {"cp": 2, "bin": 2, "ci": 2, "cicp": 2}, sym=["cp", "bin", "cicp"], nm=X, cost=20),
    c("inst_cg", {"inst": 2, "cg": 2, "ci": 2}, sym=["inst", "cg", "ci"], nm=X, cost=20),
    c("wide2", {"inst": 4, "cg": 4, "cp": 4, "bin": 8, "cr": 3, "xbin": 4, "ci": 4, "cicp": 4, "cicr": 2},
      kinds=[H.BIN, H.IGN, H.ILL], xkinds=[H.BIN, H.ILL, H.IGN], cost=5),
]}


def run(S, cfg):
    spec = H.uniform_atl(H.Gen(S, cfg).db("d"))
    if cfg.get("need"):
        for i in spec:
            for g in i.cgs:
                for ci in g.insts:
                    S.assume(len(ci.cps) > 0)
    if cfg.get("w") == "xmlucis":
        from ucis.rgy import FormatRgy
        db = FormatRgy.inst().getDatabaseDesc("xml").fmt_if().create()
        H.build(spec, db)
        path = S.path("a.xml")
        db.write(path)
    else:
        path = H.xml_write(S, H.build(spec), cfg.get("w", "factory"))
    got = H.drop_inst_weight(H.db_records(S, H.xml_read(S, path, cfg.get("r", "factory"))))
    exp = H.as_read(spec)
    H.seq_records(
        S, H.inst_records(got), H.drop_inst_weight(H.spec_records(exp)), "read back")
    H.check_types(S, got, exp, "read back")
    S.observe("recs", [[k, v] for k, v in got])
