"""YAML: the data of every covergroup instance is read verbatim."""
import hlib as H
import ylib as Y

BOUNDS = ("documents with up to 3 covergroups, 3 instances, 3 coverpoints, 2 crosses and 4 bins per point; symbolic "
          "names (one arbitrary printable character inside the name) at one or two levels at a time; every bin list "
          "(bins, ignorebins, illegalbins); counts, weights and thresholds: every non-negative integer; optional "
          "keys present or absent; files in UTF-8 and UTF-16 under each of three locale encodings")
BOUNDS += H.BIGB
OUTSIDE = "YAML syntax itself (PyYAML), longer symbolic names, larger documents"
ASSUMPTIONS = ["names are unique among siblings of one kind (bins: per list)",
               "PyYAML, jsonschema and python_jsonschema_objects are modelled; sampled paths are replayed on them"]

X = {"lo": 33, "hi": 126, "suffix": "z"}
V = {"lo": 33, "hi": 126, "var": [0, 1]}
B = {"atl": "sym", "wt": "sym", "wtl": ["cg"], "atl_lo": 0}


def c(case, shape, **k):
    d = {"case": case, "shape": shape}
    d.update(B)
    d.update(k)
    return d


CI = {"cp": 0, "ci": 2, "cicp": 2, "cibin": 2, "cicr": 1, "cixbin": 2}
CONFIGS = {"quick": [
    c("plain", dict(CI, ci=3, cg=2)),
    c("bins", dict(CI, cicp=1, cicr=0), sym=["cibin"], nm=X),
    c("kinds", dict(CI, cicp=1, cicr=0), kinds="sym", cost=2),
    c("kinds3", dict(CI, cibin=4), kinds=[H.BIN, H.IGN, H.ILL, H.IGN], emptylists=True),
    c("kind_names", dict(CI, ci=1, cicp=1, cicr=0, cibin=3), sym=["cibin"], kinds=[H.BIN, H.IGN, H.ILL], nm=X),
    c("bins_var", dict(CI, cicp=1, cicr=0), sym=["cibin"], kinds=[H.ILL], nm=V, cost=2),
    c("ign_var", dict(CI, cicp=1, cicr=0), sym=["cibin"], kinds=[H.IGN], nm=V, cost=2),
    c("points_var", dict(CI, cicr=0), sym=["cicp"], nm=V),
    c("groups_var", dict(CI, ci=1, cg=2), sym=["cg", "ci"], nm=V),
    c("points", dict(CI), sym=["cicp"], nm=X, cost=2),
    c("crosses", dict(CI, cicr=2, cixbin=1), sym=["cicr"], nm=X),
    c("xbins", dict(CI), sym=["cixbin"], nm=X),
    c("insts", dict(CI, ci=3, cicp=1), sym=["ci"], nm=X),
    c("groups", dict(CI, ci=1, cg=3), sym=["cg"], nm=X),
    c("ways", dict(CI, cicp=4, cicr=2), ways=3),
    c("atleast", dict(CI, ci=1), atleast="flag"),
    c("never", dict(CI), atleast="never", weight="never"),
    c("weight", dict(CI, cg=3, ci=1, cicr=0), weight="flag"),
    c("nokeys", dict(CI, ci=2, cicp=0, cicr=0), nokeys=True),
    c("noxbins", dict(CI, ci=2, cixbin=0), nokeys=True),
    c("optpts", dict(CI, cicp=3, cicr=0), opt=["cicp"]),
    c("optbins", dict(CI, cicp=1, cicr=0, cibin=3), opt=["cibin"]),
    c("optx", dict(CI, cicr=2, cixbin=2), opt=["cixbin"], nokeys=True, cost=2),
    c("noinst", dict(CI, cg=2, ci=0), noinst=True),
    c("file", dict(CI), how="file"),
    c("rgy", dict(CI), how="rgy"),
    c("same", dict(CI, ci=2, cg=2, cicp=2, cibin=2, cicr=2, cixbin=2), same=True, kinds=[H.BIN, H.ILL]),
    c("xrefs", dict(CI, ci=1), xrefs="any"),
    c("xrep", dict(CI, ci=2, cicr=2), xrefs="rep", ways=3),
    c("dup", dict(CI, ci=3, cicr=0, cicp=1), sym=["ci"], dup=["ci"], nm=X),
    c("long", dict(CI), nm={"prefix": "n" * 300}),
    c("astral", dict(CI, ci=1, cibin=1, cicp=1), sym=["cg", "ci", "cicp", "cibin", "cicr"], nm={"lo": 0x10000, "hi": 0x10FFFF}),
    c("enc", dict(CI, ci=1), how="rgy", encs=["utf-8", "utf-8-sig", "utf-16"], locale=H.LOCALES,
      sym=["cg", "cicp", "cibin"], nm={"lo": 0xA1, "hi": 0xD7FF, "suffix": "z"}),
    c("again", dict(CI, ci=1), again=True, how="again"),
    c("again_sym", dict(CI, ci=1, cicr=0, cicp=1), again=True, how="again", sym=["cg", "cibin"], nm=X),
    c("again_refuse", dict(CI, cg=2, cibin=1), again="refuse", how="again"),
    c("again_refuse_sym", dict(CI, ci=1, cicp=1), again="refuse", how="again", sym=["cg", "cicp"], nm=X),
    c("words", H.YONE, sym=H.YLEV, nm=H.WORDS),
    c("alias_lists", dict(CI, ci=2), alias="lists"),
    c("alias_points", dict(CI, ci=2), alias="points"),
    c("alias_points3", dict(CI, ci=3, cicr=1), alias="points", kinds=[H.BIN, H.ILL]),
    c("alias_crosses", dict(CI, ci=2, cicr=2), alias="crosses"),
    c("alias_bins", dict(CI, ci=2), alias="bins"),
    c("alias_bin", dict(CI, ci=2), alias="bin"),
    c("alias_groups", dict(CI, cg=2, ci=2), alias="groups"),
] + H.ypairs(c) + H.ybigs(c), "thorough": [
    c("bins3", dict(CI, cicp=1, cicr=0, cibin=3), sym=["cibin"], nm=X, cost=20),
    c("bins_ci3", dict(CI, ci=3, cicp=1, cicr=0), sym=["cibin"], nm=X, cost=20),
    c("pts_ci3", dict(CI, ci=3), sym=["cicp"], nm=X, cost=20),
    c("xb_ci3", dict(CI, ci=3), sym=["cixbin"], nm=X, cost=20),
    c("kinds3s", dict(CI, cicp=1, cicr=0, cibin=3), kinds="sym", cost=20),
    c("wide", dict(CI, cg=4, ci=4, cicp=4, cibin=8, cicr=3, cixbin=6), kinds=[H.BIN, H.IGN, H.ILL], ways=3, cost=5),
]}


def run(S, cfg):
    spec = H.uniform_atl(H.Gen(S, cfg).db("d"))
    d = Y.doc(S, spec, cfg)
    if cfg.get("again"):
        # one reader, two documents
        from ucis.yaml.yaml_reader import YamlReader
        rd = YamlReader()
        spec0 = H.uniform_atl(H.Gen(S, cfg).db("e"))
        first = rd.loads(S.yaml_text(Y.doc(S, spec0, cfg)))
        recs0 = H.db_records(S, first)
        if cfg["again"] == "refuse":
            # and one that is refused
            bad = Y.doc(S, H.uniform_atl(H.Gen(S, cfg).db("b")), dict(cfg))
            cgs = bad["coverage"]["covergroups"]
            how = S.choice("how", ["noname", "nocount", "xref", "twice"])
            last = cgs[-1]["instances"][-1]
            if how == "noname":
                del last["coverpoints"][-1]["name"]
            elif how == "nocount":
                del last["coverpoints"][-1]["bins"][-1]["count"]
            elif how == "xref":
                last["crosses"][-1]["coverpoints"] = ["nosuchpoint"]
            else:
                last["name"] = 3
            for k in range(S.choice("times", [1, 2])):
                try:
                    rd.loads(S.yaml_text(bad))
                except Exception:
                    pass
        db = rd.loads(S.yaml_text(d))
        H.seq_records(S, H.db_records(S, first), recs0, "the database read first")
    else:
        db = Y.read(S, d, cfg.get("how", "loads"), cfg.get("encs"))
    spec[0].name = "cg_inst"
    got = H.inst_records(Y.strip(H.db_records(S, db)))
    exp = Y.strip(H.spec_records(spec))
    S.check(len([1 for k, v in got if k[0] == "inst"]) == 1, "one design instance")
    spec_name = [k[1] for k, v in got if k[0] == "inst"][0]
    exp = [([k[0], spec_name] + k[2:], v) for k, v in exp]
    H.seq_records(S, got, exp, "read")
    S.observe("recs", [[k, v] for k, v in got])
