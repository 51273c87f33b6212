"""The command line does what the library does, and reports failure in its exit status."""
import hlib as H
import ylib as Y

BOUNDS = ("commands convert, merge, report (text and JSON, to a file and to standard output) and list-db-formats / "
          "list-rpt-formats, long and short options, 1-3 inputs in XML or YAML, plain or gzip compressed; up to 2 items "
          "per level with symbolic names, counts, thresholds, weights and bin kinds; every way a command can fail: "
          "missing input (any position), malformed or invalid input, unknown format names (symbolic text), bad usage, "
          "format that cannot be written, names that XML cannot hold; output over one of the inputs; several locale encodings")
BOUNDS += H.BIGB
OUTSIDE = "the libucis back end; failures of the output device; larger databases"
ASSUMPTIONS = ["the console encoding can represent the names"]

X = {"lo": 33, "hi": 0xD7FF, "suffix": "z"}
SH = {"cp": 2, "bin": 2, "cr": 1, "ci": 1}


def c(case, what, **k):
    d = {"case": case, "what": what, "shape": SH, "atl": "sym", "wt": "sym", "atl_lo": 0, "fmt": "xml"}
    d.update(k)
    return d


# unusual file names; {0}: kept distinct
FNAMES = ["a b{0}.xml", "in[1]{0}.xml", "in*{0}.xml", "in?{0}.xml", "~in{0}.xml", "%s{0}.xml", "{{0}}{0}.xml", "$HOME{0}.xml",
          "a,b{0}.xml", "a;b{0}.xml", "\u00fc{0}.xml", "noext{0}", "in{0}.yaml", "in{0}.xml.gz", "in{0}.XML", ".in{0}.xml",
          "a.b{0}.c.xml", "@in{0}.xml", "#in{0}.xml", "in{0}.txt", "a'b{0}.xml", "a&b{0}.xml", "a=b{0}.xml", "a:b{0}.xml",
          "file://in{0}.xml".replace("/", "_"), "in{0}.xml ", "-in{0}.xml", "n" * 180 + "{0}.xml"]

CONFIGS = {"quick": [
    c("convert", "convert"),
    c("convert_long", "convert", opts="long"),
    c("convert_names", "convert", sym=["bin", "cg"], nm=X),
    c("convert_kinds", "convert", kinds=[H.BIN, H.IGN, H.ILL], xkinds=[H.ILL], shape={"bin": 3, "cr": 1}),
    c("convert_yaml", "convert", fmt="yaml", shape={"ci": 2, "cicp": 2, "cp": 0, "cicr": 1}),
    c("convert_gzip", "convert", comp="gzip"),
    c("convert_over", "convert", over=True),
    c("convert_inplace", "convert", inplace=True),
    c("merge1", "merge", n=1),
    c("merge2", "merge", n=2),
    c("merge2_names", "merge", n=2, sym=["bin"], nm=X),
    c("merge2_groups", "merge", n=2, sym=["cg"], nm=X),
    c("merge3", "merge", n=3, shape={"cp": 1, "bin": 2}, opts="long"),
    c("merge_same", "merge", n=2, same=True),
    c("merge_twice", "merge", n=2, twice=True, shape={"cp": 1, "bin": 2}),
    c("merge_yaml", "merge", n=2, fmt="yaml", shape={"ci": 2, "cp": 0}),
    c("merge_gzip", "merge", n=2, comp="gzip"),
    c("report_txt", "report", rf=None, cnt="fix"),
    c("report_txt_file", "report", rf="txt", out=True, cnt="fix"),
    c("report_json", "report", rf="json", hitf=True),
    c("report_json_file", "report", rf="json", out=True, hitf=True, opts="long"),
    c("report_yaml", "report", rf="json", fmt="yaml", hitf=True, shape={"ci": 2, "cp": 0, "cibin": 1}),
    c("report_names", "report", rf="txt", out=True, cnt="fix", sym=["cp"], nm=X),
    c("report_gzip", "report", rf="json", comp="gzip", hitf=True),
    c("names_convert", "convert", fnames=FNAMES, shape={"cp": 1, "ci": 1}, cost=3),
    c("names_merge", "merge", n=2, fnames=FNAMES, shape={"cp": 1}, cost=3),
    c("names_report", "report", rf="json", hitf=True, out=True, fnames=FNAMES, shape={"cp": 1}, cost=3),
    c("names_txt", "report", rf="txt", cnt="fix", fnames=FNAMES, shape={"cp": 1}, cost=2),
    c("names_yaml", "convert", fmt="yaml", fnames=FNAMES, shape={"cp": 0, "ci": 1}, cost=3),
    c("convert_longer", "convert", over=True, shape={"cp": 1}),
    c("merge_over", "merge", n=2, over=True),
    c("merge_longer", "merge", n=2, over=True, shape={"cp": 1}),
    c("fail_outdir", "fail", why="outdir", cost=2),
    c("fail_isdir", "fail", why="isdir", cost=2),
    c("fail_inisdir", "fail", why="inisdir", cost=2),
    c("fail_names", "fail", why="missing", fnames=FNAMES, cost=2),
    c("listdb", "list", cmd="list-db-formats", names=["libucis", "xml", "yaml"]),
    c("listrpt", "list", cmd="list-rpt-formats", names=["json", "txt"]),
    c("report_over", "report", rf="txt", cnt="fix", over=True, out=True),
    c("report_inplace", "report", rf="json", hitf=True, inplace=True, out=True),
    c("fail_missing", "fail", why="missing"),
    c("fail_merge_missing", "fail", why="merge_missing"),
    c("fail_invalid", "fail", why="invalid"),
    c("fail_notxml", "fail", why="notxml"),
    c("fail_damaged", "fail", why="damaged"),
    c("fail_informat", "fail", why="informat"),
    c("fail_outformat", "fail", why="outformat"),
    c("fail_usage", "fail", why="usage"),
    c("fail_write", "fail", why="yamlout"),
    c("fail_chars", "fail", why="chars"),
    c("merge_inplace", "merge", n=2, inplace=True),
    c("merge_inplace3", "merge", n=3, inplace=True, shape={"cp": 1, "bin": 1}, sym=["bin"], nm=X),
    c("convert_locale", "convert", locale=H.LOCALES, sym=["cg", "bin"], nm=H.LATIN),
    c("merge_locale", "merge", n=2, locale=H.LOCALES, sym=["cp"], nm=H.LATIN, shape={"cp": 1, "bin": 1}),
    c("report_locale", "report", rf="json", out=True, hitf=True, locale=H.LOCALES, sym=["cg", "cp", "cr", "bin"], nm=H.LATIN),
    c("convert_sub", "convert", shape={"inst": 2, "sub": 2, "depth": 2, "ci": 1}),
    c("merge_sub", "merge", n=2, shape={"inst": 1, "sub": 2, "depth": 2}),
    c("report_sub", "report", rf="json", hitf=True, shape={"inst": 1, "sub": 2, "depth": 2}),
    c("words", "convert", shape=H.ONE, sym=H.LEVELS, nm=H.WORDS),
    c("words_merge", "merge", n=1, shape=H.ONE, sym=H.LEVELS, nm=H.WORDS),
    c("words_rpt", "report", rf="json", hitf=True, shape=H.ONE, sym=H.LEVELS, nm=H.WORDS),
    c("words_txt", "report", rf="txt", cnt="fix", shape=H.ONE, sym=H.LEVELS, nm=H.WORDS),
    c("big_convert", "convert", shape={"cp": 1, "bin": 300, "cr": 1, "xbin": 200, "ci": 1}),
    c("big_convert2", "convert", shape={"inst": 30, "cg": 2, "cp": 3, "ci": 2}),
    c("big_convert_deep", "convert", shape={"inst": 1, "sub": 1, "depth": 24}),
    c("big_convert_yaml", "convert", fmt="yaml", shape={"ci": 40, "cicp": 4, "cibin": 4, "cp": 0, "cicr": 2}),
    c("big_merge", "merge", n=2, shape={"cp": 1, "bin": 300, "cr": 1, "xbin": 200, "ci": 1}),
    c("big_merge2", "merge", n=2, shape={"inst": 20, "cg": 2, "cp": 3, "ci": 2}),
    c("big_merge_src", "merge", n=30, shape={"cp": 1, "bin": 2, "cr": 1}),
    c("big_txt", "report", rf="txt", cnt="fix", shape={"cp": 1, "bin": 200, "cr": 1, "xbin": 200}),
    c("big_txt2", "report", rf="txt", out=True, cnt="fix", shape={"inst": 20, "cg": 2, "cp": 3, "ci": 2}),
    c("big_json", "report", rf="json", hitf=True, shape={"cp": 1, "bin": 200, "cr": 1, "xbin": 200}),
    c("big_json2", "report", rf="json", out=True, hitf=True, shape={"inst": 20, "cg": 2, "cp": 3, "ci": 1}),
], "thorough": [
    c("merge4", "merge", n=4, shape={"cp": 1, "bin": 2}, cost=9),
    c("merge3_names", "merge", n=3, sym=["bin"], nm=X, shape={"cp": 1, "bin": 2}, cost=50),
    c("convert_wide", "convert", shape={"inst": 2, "cg": 2, "cp": 2, "bin": 4, "cr": 2, "ci": 2, "cicp": 2}, cost=9),
    c("merge_wide", "merge", n=3, shape={"inst": 2, "cg": 2, "cp": 2, "bin": 4, "cr": 2, "ci": 2, "cicp": 2}, cost=9),
    c("report_opt", "report", rf="json", hitf=True, opt=["cp"], shape={"cp": 3, "ci": 1}, cost=9),
]}


def spec_of(S, cfg, tag):
    g = H.Gen(S, cfg)
    spec = H.uniform_atl(g.db(tag))
    if cfg.get("cnt") == "fix":
        n = 0
        for p in points(spec):
            for b in p.bins:
                n += 1
                b.count = [0, 3, 7][n % 3]
                b.at_least = [1, 4, 2][n % 3]
            p.weight = 1 + n % 2
        for i in spec:
            for x in i.cgs:
                x.weight = 2
        H.uniform_atl(spec)
    elif cfg.get("hitf"):
        H.assume_hits(S, spec)
        for p in points(spec):
            p.weight = 2
        for i in spec:
            for x in i.cgs:
                x.weight = 1
                for y in x.insts:
                    y.weight = 1
    return spec


def points(spec):
    for i in spec:
        for x in i.cgs:
            for y in [x] + x.insts:
                for p in y.cps + y.crs:
                    yield p


def write_input(S, cfg, spec, name):
    """Writes an input file; returns (path, database as the library reads it)."""
    fmt = cfg["fmt"]
    if cfg.get("fnames"):                  # an unusual name, and files with similar names beside it
        fn = fname(S, cfg, name)
        for k, n in enumerate(("in1%s.xml", "inx%s.xml", "in*1%s.xml")):
            H.xml_write(S, H.build([H.Inst("other", [H.CG("g%d" % k, [H.CP("p", [H.Bin("b", 5)])])])]), name=n % name)
        p = S.path(fn)
        if fmt == "yaml":
            S.write_text(p, S.yaml_text(Y.doc(S, spec, {})))
        else:
            H.xml_write(S, H.build(spec), name=fn)
        from ucis.rgy import FormatRgy
        H.xml_write(S, H.build(spec), name="copy%s.xml" % name)
        return p, FormatRgy.inst().getDatabaseDesc(fmt).fmt_if().read(p) if fmt == "yaml" else \
            read_xml(S, S.path("copy%s.xml" % name))
    p = S.path(name + "." + fmt)
    if fmt == "yaml":
        S.write_text(p, S.yaml_text(Y.doc(S, spec, {})))
    else:
        H.xml_write(S, H.build(spec), name=name + "." + fmt)
        if cfg.get("comp"):
            text = S.read_text(p)
            p = S.path(name + "c.xml")
            S.write_compressed(p, text, cfg["comp"], b"\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\x03")
    from ucis.rgy import FormatRgy
    return p, FormatRgy.inst().getDatabaseDesc(fmt).fmt_if().read(p)


def fname(S, cfg, name):
    if not hasattr(S, "fname_k") or S.fname_k is None:
        S.fname_k = S.choice("fname", list(range(len(cfg["fnames"]))))
    return cfg["fnames"][S.fname_k].format(name)


def opt(cfg, short, long):
    return long if cfg.get("opts") == "long" else short


def fmts(cfg):
    return [opt(cfg, "-if", "--input-format"), cfg["fmt"]] if cfg["fmt"] != "xml" or cfg.get("opts") == "long" else []


def read_xml(S, p):
    from ucis.xml.xml_factory import XmlFactory
    return XmlFactory.read(p)


def names_of(S, db, db2, what):
    """design-unit free comparison of two databases"""
    H.seq_records(S, H.drop_inst_weight(H.db_records(S, db)), H.drop_inst_weight(H.db_records(S, db2)), what)


def convert(S, cfg):
    spec = spec_of(S, cfg, "d")
    p, ref = write_input(S, cfg, spec, "in")
    out = p if cfg.get("inplace") else S.path(fname(S, cfg, "out") if cfg.get("fnames") else "out.xml")
    if cfg.get("over"):
        H.xml_write(S, H.build(spec_of(S, dict(cfg, shape={"cp": 1, "cg": 6}), "old")), name="out.xml")
    argv = ["convert", opt(cfg, "-o", "--out"), out] + fmts(cfg) + [p]
    st = S.main(argv)
    S.check(st == 0, "exit status of a successful convert is %r" % (st,))
    names_of(S, read_xml(S, out), ref, "converted file")
    if not cfg.get("inplace"):
        names_of(S, H.xml_read(S, p) if cfg["fmt"] == "xml" else ref, ref, "input file")
    S.observe("records", len(H.db_records(S, ref)))


def merge(S, cfg):
    from ucis.merge import DbMerger
    ps, dbs = [], []
    for k in range(cfg["n"]):
        p, d = write_input(S, cfg, spec_of(S, cfg, "d%d" % k), "in%d" % k)
        ps.append(p)
        dbs.append(d)
    if cfg.get("twice"):
        # the first file named again, at any position
        k = S.choice("pos", [0, 1, 2])
        ps.insert(k, ps[0])
        dbs.insert(k, dbs[0])
    out = S.path(fname(S, cfg, "out") if cfg.get("fnames") else "out.xml")
    if cfg.get("over"):
        H.xml_write(S, H.build(spec_of(S, dict(cfg, shape={"cp": 1, "cg": 6}), "old")), name="out.xml")
    if cfg.get("inplace"):
        # the output replaces one of the inputs
        out = ps[S.choice("over", list(range(len(ps))))]
    argv = ["merge", opt(cfg, "-o", "--out"), out] + fmts(cfg) + ps
    st = S.main(argv)
    S.check(st == 0, "exit status of a successful merge is %r" % (st,))
    dst = H.new_db()
    DbMerger().merge(dst, dbs)
    H.xml_write(S, dst, name="ref.xml")
    names_of(S, read_xml(S, out), read_xml(S, S.path("ref.xml")), "merged file")
    S.observe("records", len(H.db_records(S, dst)))


def report(S, cfg):
    from ucis.rgy import FormatRgy
    spec = spec_of(S, cfg, "d")
    p, ref = write_input(S, cfg, spec, "in")
    argv = ["report"] + fmts(cfg)
    if cfg["rf"]:
        argv += [opt(cfg, "-of", "--output-format"), cfg["rf"]]
    if cfg.get("out"):
        out = p if cfg.get("inplace") else S.path(fname(S, cfg, "out") if cfg.get("fnames") else "rpt.txt")
        if cfg.get("over"):
            S.write_text(out, "an older report\n" * 200)
        argv += [opt(cfg, "-o", "--out"), out]
    argv.append(p)
    st = S.main(argv)
    S.check(st == 0, "exit status of a successful report is %r" % (st,))
    text = S.read_text(out) if cfg.get("out") else S.stdout_text()
    stream = S.stream()
    FormatRgy.inst().getReportDesc(cfg["rf"] or "txt").fmt_if().report(ref, stream, [])
    want = S.text_of(stream)
    if cfg["rf"] == "json":
        S.check(S.same_json(text, want), "the report is the library's JSON report")
    else:
        S.check(S.eq(text, want), "the report is the library's text report")
    S.observe("exit", st)


def lst(S, cfg):
    st = S.main([cfg["cmd"]])
    S.check(st == 0, "exit status")
    ls = S.lines(S.stdout_text())
    S.check(len(ls) == len(cfg["names"]), "one line per format")
    for l, n in zip(ls, cfg["names"]):
        S.check(S.starts(l, n), "format " + n)
    S.observe("exit", st)


def fail(S, cfg):
    spec = spec_of(S, dict(cfg, shape={"cp": 1, "bin": 1}, wt=1, atl=1), "d")
    good, _ = write_input(S, cfg, spec, "good")
    out = S.path("out.xml")
    bad = S.path("bad.xml")
    w = cfg["why"]
    cmd = S.choice("cmd", ["convert", "merge", "report"])
    o = ["-o", out] if cmd != "report" or S.flag("out") else []
    argvs = None
    if w == "missing":
        if cfg.get("fnames"):
            o = o[:1] + [S.path(fname(S, cfg, "out"))] if o else []
            out = o[1] if o else out
        argv = [cmd] + o + [S.path(fname(S, cfg, "nosuch") if cfg.get("fnames") else "nosuch.xml")]
    elif w in ("outdir", "isdir"):
        # the output cannot be created: its directory does not exist, or a directory has its name
        out = S.path("nosuchdir/out.xml" if w == "outdir" else "adir.xml")
        if w == "isdir":
            S.mkdir(out)
        argv = [cmd, "-o", out] + (["-of", S.choice("of", ["txt", "json"])] if cmd == "report" else []) + \
            ([good, good] if cmd == "merge" and S.flag("second") else [good])
    elif w == "inisdir":
        d = S.path("indir.xml")
        S.mkdir(d)
        argv = [cmd] + o + ([good, d] if cmd == "merge" and S.flag("second") else [d])
    elif w == "merge_missing":
        l = [good, good, good]
        l[S.choice("pos", [0, 1, 2])] = S.path("nosuch.xml")
        argv = ["merge", "-o", out] + l
    elif w == "invalid":
        S.write_text(bad, S.xml_text(S.xml_elem("NOTUCIS", [("a", "b")])))
        if cmd == "merge" and S.flag("second"):
            argv = [cmd] + o + [good, bad]
        else:
            argv = [cmd] + o + [bad]
    elif w == "notxml":
        S.write_text(bad, S.choice("text", ["", "no xml at all", "<UCIS", "<a></b>"]))
        argv = [cmd] + o + [bad]
    elif w == "damaged":
        S.write_damaged(bad, S.read_text(good), S.choice("how", ["header", "crc", "cut", "data"]))
        argv = [cmd] + o + ([good, bad] if cmd == "merge" and S.flag("second") else [bad])
    elif w in ("informat", "outformat"):
        n = S.name("fmt", 3, lo=33, hi=126)
        S.assume(S.not_(S.eq(n, "xml")))
        S.assume(S.not_(S.eq(n, "txt")))
        S.assume(S.not_(S.eq(n[0], "-")))
        S.assume(S.not_(S.eq(n[0], "+")))
        argv = [cmd] + o + ["-if" if w == "informat" else "-of", n, good]
    elif w == "chars":
        # names which no XML document can hold
        sp = spec_of(S, dict(cfg, shape={"cp": 0, "ci": 1, "cicp": 1, "cibin": 1, "cr": 0}, wt=1, atl=1,
                             sym=[S.choice("level", ["cg", "ci", "cicp", "cibin"])],
                             nm=S.choice("nm", [{"lo": 1, "hi": 8, "suffix": "z"}, {"lo": 14, "hi": 31, "suffix": "z"}])), "y")
        bad = S.path("bad.yaml")
        S.write_text(bad, S.yaml_text(Y.doc(S, sp, {})))
        argv = [S.choice("cmd2", ["convert", "merge"]), "-o", out, "-if", "yaml", bad]
    elif w == "usage":
        argv = S.choice("argv", [[], ["nosuchcommand"], ["convert", good], ["merge", "-o", out], ["report"],
                                 ["convert", "-o", out], ["report", good, "--nosuchoption"],
                                 ["merge", good, good]])
    else:
        argv = [S.choice("cmd2", ["convert", "merge"]), "-o", out, "-of", "yaml", good]
    st = S.main(argv)
    S.check(S.is_int(st) and st != 0, "a failed command exits with status %r" % (st,))
    if w not in ("yamlout", "isdir"):
        S.check(not S.file_exists(out), "a failed command leaves no output behind")
    S.observe("exit", st)


def run(S, cfg):
    {"convert": convert, "merge": merge, "report": report, "list": lst, "fail": fail}[cfg["what"]](S, cfg)
