"""XML files written by PyUCIS are schema-valid and list every source file once."""
import hlib as H

BOUNDS = ("up to 3 items per level; symbolic names (any XML character in any position) at one or more levels; "
          "weights, counts and thresholds: every non-negative integer; every bin kind; 0-2 history nodes with "
          "symbolic fields as in P12; up to 3 source files with symbolic names attached to scopes of any level; "
          "locale encodings UTF-8, ISO-8859-1 and ASCII")
BOUNDS += H.BIGB
OUTSIDE = "larger databases"
ASSUMPTIONS = ["there is an instance, every covergroup has a coverpoint and every coverpoint a bin (schema)",
               "the schema is interpreted by symx/fake_lxml.py; sampled paths are replayed on the real lxml validator"]

X = {"lo": 32, "hi": 0xD7FF}
WS = {"alphabet": "\t\n\r <&>\"'"}
B = {"atl": "sym", "wt": "sym", "atl_lo": 0}


def c(case, shape, **k):
    d = {"case": case, "shape": shape}
    d.update(B)
    d.update(k)
    return d


CONFIGS = {"quick": [
    c("names", {"inst": 1, "cg": 2, "cp": 2, "cr": 1, "ci": 1}, sym=["inst", "cg", "ci"], nm=X),
    c("pts", {"cp": 2, "bin": 2, "cr": 1}, sym=["cp", "bin", "cr", "xbin"], nm=X),
    c("markup", {"cp": 2, "bin": 1, "cr": 1}, sym=["cp", "xbin"], nm=WS),
    c("kinds", {"bin": 2, "cr": 1, "xbin": 2}, kinds="sym", xkinds="sym", cost=2),
    c("cr0", {"cp": 2, "cr": 1, "xbin": 0, "ci": 1, "cicp": 2, "cicr": 1, "cixbin": 0}),
    c("nocg", {"inst": 2, "cg": 0}),
    c("wide", {"inst": 3, "cg": 3, "cp": 2, "bin": 4, "cr": 2, "xbin": 3, "ci": 3, "cicp": 2, "cicr": 1},
      kinds=[H.BIN, H.IGN, H.ILL], xkinds=[H.BIN, H.ILL, H.IGN]),
    c("hist", {}, n=2, st="sym", kind="sym", symf=["lname", "cmd", "cost", "simtime", "same"]),
    c("hist_t", {}, n=1, symf=["seed", "args", "comment", "user", "compulsory", "timeunit", "cputime"]),
    c("hist_d", {}, n=1, date="sym"),
    c("hist_unset", {}, n=1, unset=["date", "seed", "cmd", "args", "compulsory", "user", "timeunit", "runcwd",
                                    "comment", "pname", "simtime", "cputime", "cost", "same"]),
    c("files", {"cg": 1}, files=2, fsym=True),
    c("files3", {"cg": 2, "cp": 1, "ci": 1}, files=3, fsym=False),
    c("files_path", {}, files=2, fsym=True, flens=[1, 3]),
    c("files_path4", {}, files=2, fsym=True, flens=[2, 4]),
    c("files_same", {}, files=3, fsame=True, fsym=False),
    c("files_merge", {}, files=2, fmerge=True, fsym=True),
    c("writer2", {}, files=2, fsym=True, wreuse=True),
    c("xmlucis", {"cp": 2, "cr": 1}, w="xmlucis"),
    c("same", {"inst": 2, "cg": 2, "cp": 2, "bin": 2, "cr": 2, "xbin": 2, "ci": 2, "cicp": 2, "cibin": 2, "cicr": 2, "cixbin": 2}, same=True,
      kinds=[H.BIN, H.ILL], xkinds=[H.BIN, H.IGN]),
    c("long", {"inst": 2, "cg": 2, "cp": 2, "cr": 1, "ci": 2}, nm={"prefix": "n" * 300}),
    c("xrefs", {"cp": 2, "cr": 1, "ci": 1, "cicp": 2, "cicr": 1}, xrefs="any"),
    c("wt0", {"cp": 1, "cr": 1, "ci": 1, "cicr": 1}),
    c("astral", {"cp": 1, "bin": 1, "cr": 1, "ci": 1}, sym=["cp", "bin", "cr", "cicp", "ci", "cg"], nm={"lo": 0x10000, "hi": 0x10FFFF}),
    c("many", {"inst": 12, "cg": 2, "cp": 4, "bin": 2, "ci": 2}),
    c("many_bins", {"cp": 1, "bin": 70, "cr": 1, "xbin": 70}),
    c("api", {"inst": 2, "cg": 2, "cp": 2, "bin": 2, "cr": 2, "xbin": 2, "ci": 2, "cicp": 2, "cibin": 2, "cicr": 2}, api="next", kinds=[H.BIN, H.IGN, H.BIN, H.ILL]),
    c("sub", {"inst": 2, "sub": 2, "depth": 2, "cr": 1, "ci": 1}, sym=["sub", "inst"], nm=X),
    c("locale", {"cp": 2, "cr": 1, "ci": 1}, locale=H.LOCALES, sym=["inst", "cg", "bin", "ci"], nm=X),
    c("locale_x", {"cp": 2, "cr": 1}, w="xmlucis", locale=H.LOCALES, sym=["cg", "cp"], nm=X),
    c("words", H.ONE, sym=H.LEVELS, nm=H.WORDS),
    c("words_t", {"cr": 1}, sym=H.LEVELS, nm=H.WORDS),
] + H.edges(c, hi=0xD7FF) + H.nums(c) + H.bigs(c), "thorough": [
    c("all", {"inst": 2, "cg": 2, "cp": 2, "bin": 2, "cr": 1, "ci": 1}, nm=X,
      sym=["inst", "cg", "cp", "bin", "cr", "xbin", "ci", "cicp", "cibin"], cost=5),
    c("n3", {"cp": 2, "bin": 2, "cr": 1}, sym=["cp", "bin", "cr"], nm=dict(X, n=3), cost=5),
    c("hist_all", {}, n=2, st="sym", kind="sym", date="sym", symf=H.HTEXT + H.HTEXT2 + ["lname", "pname", "cost",
                                                                                        "same"], cost=5),
    c("files_sym3", {"cg": 2, "ci": 1}, files=3, fsym=True, cost=9),
]}


def build_files(S, db, names, iname="i"):
    """Scopes at different levels located in different files."""
    import ucis
    from ucis.source_info import SourceInfo
    fh = [db.createFileHandle(n, None) for n in names]

    def loc(k):
        return SourceInfo(fh[k % len(fh)], k + 1, k)
    du = db.createScope("du", loc(0), 1, ucis.UCIS_SV, ucis.UCIS_DU_MODULE, ucis.UCIS_INST_ONCE)
    i = db.createInstance(iname, loc(1), 1, ucis.UCIS_SV, ucis.UCIS_INSTANCE, du, ucis.UCIS_INST_ONCE)
    g = i.createCovergroup("g", loc(2), 1, ucis.UCIS_SV)
    ci = g.createCoverInstance("ci", loc(3), 1, ucis.UCIS_SV)
    p = ci.createCoverpoint("p", loc(4), 1, ucis.UCIS_SV)
    p.createBin("b", loc(5), 1, 1, "b")
    return db


def run(S, cfg):
    if cfg.get("files"):
        n = cfg["files"]
        names = [S.name("file%d" % k, 1, "", ".sv") for k in range(n)] if cfg["fsym"] else ["f%d.sv" % k for k in range(n)]
        if cfg.get("flens"):
            names = [S.name("file%d" % k, l, "", "") for k, l in enumerate(cfg["flens"])]
        if cfg.get("fsame"):
            names = [names[0], S.choice("second", names[:2]), S.choice("third", names)]
        db = build_files(S, H.new_db(), names)
        if cfg.get("fmerge"):
            # every database has a handle of its own for the same file
            from ucis.merge import DbMerger
            other = build_files(S, H.new_db(), names[::-1], "j")
            dst = H.new_db()
            DbMerger().merge(dst, [db, other])
            db = dst
    else:
        names = None
        spec = H.uniform_atl(H.Gen(S, cfg).db("d"))
        if cfg.get("w") == "xmlucis":
            from ucis.rgy import FormatRgy
            db = H.build(spec, FormatRgy.inst().getDatabaseDesc("xml").fmt_if().create())
        else:
            db = H.build(spec)
        for k in range(cfg.get("n", 0)):
            H.build_hist(db, H.gen_hist(S, "h%d" % k, cfg))
    if cfg.get("w") == "xmlucis":
        path = S.path("a.xml")
        db.write(path)
    elif cfg.get("wreuse"):
        # one writer object, two databases
        from ucis.xml.xml_writer import XmlWriter
        w = XmlWriter()
        w.write(S.stream(), build_files(S, H.new_db(), [S.name("old%d" % k, 2, "", ".sv") for k in range(3)]))
        st = S.stream()
        w.write(st, db)
        path = S.path("a.xml")
        S.write_text(path, S.text_of(st))
    else:
        path = H.xml_write(S, db)
    text = S.read_text(path)
    err = S.schema_errors(text)
    S.check(err is None, "written file is not schema-valid: %s" % (err,))
    root = S.xml_of(text)
    files = [(e.get("fileName"), e.get("id")) for e in root if e.tag == "sourceFiles"]
    for a in range(len(files)):
        for b in range(a):
            S.check(S.not_(S.eq(files[a][1], files[b][1])), "two source files with one id")
            S.check(S.not_(S.eq(files[a][0], files[b][0])), "source file listed twice")
    ids = [i for _, i in files]
    for e in root.iter():
        if "file" in e.attrib:
            S.check(S.any([S.eq(e.get("file"), i) for i in ids]), "reference to an unlisted source file")
    if names and not cfg.get("fmerge"):
        for f, _ in files:
            S.check(S.any([S.eq(n, f) for n in names + ["__null__file__"]]), "source file of no scope")
    for n in names or []:
        S.check(S.any([S.eq(n, f) for f, _ in files]), "source file missing")
    S.observe("files", [[a, b] for a, b in files])
