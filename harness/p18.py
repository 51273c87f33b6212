"""Reading a gzip or LZ4 compressed file gives the same database as reading the plain file."""
import hlib as H

BOUNDS = ("XML files of up to 2 instances x 2 covergroups x 2 coverpoints + crosses + cover-instances, symbolic names, "
          "counts, thresholds, weights and bin kinds; all gzip member headers (every combination of optional fields, every time, extra flags and "
          "system) and LZ4 frame flags; for plain files "
          "every first four bytes an XML document can start with; documents in UTF-8, UTF-16 and ISO-8859-1, declared or "
          "marked, under each locale encoding of UTF-8, ISO-8859-1 and ASCII")
BOUNDS += H.BIGB
OUTSIDE = "the decompressors themselves (Python's gzip and lz4 modules are modelled as exact inverses); larger files"
ASSUMPTIONS = ["a plain XML document starts with '<', white space or a byte-order mark"]

X = {"lo": 32, "hi": 0xD7FF, "suffix": "z"}


def c(case, comp, how="factory", shape=None, **k):
    d = {"case": case, "comp": comp, "how": how, "shape": shape or {"cp": 2, "bin": 2, "cr": 1, "ci": 1},
         "atl": "sym", "wt": "sym", "atl_lo": 0}
    d.update(k)
    return d


W = {"inst": 2, "cg": 2, "cp": 2, "bin": 2, "cr": 1, "ci": 2, "cicr": 1, "cicp": 2}
CONFIGS = {"quick": [
    c("plain", None),
    c("gzip", "gzip"),
    c("lz4", "lz4"),
    c("gzip_names", "gzip", sym=["bin", "cg"], nm=X),
    c("lz4_names", "lz4", sym=["bin", "cg"], nm=X),
    c("gzip_kinds", "gzip", kinds=[H.BIN, H.ILL], xkinds=[H.IGN]),
    c("lz4_kinds", "lz4", kinds=[H.BIN, H.ILL], xkinds=[H.IGN]),
    c("gzip_wide", "gzip", shape=W),
    c("lz4_wide", "lz4", shape=W),
    c("gzip_rgy", "gzip", "rgy"),
    c("lz4_rgy", "lz4", "rgy"),
    c("gzip_ext", "gzip", name="a.xml.gz"),
    c("lz4_ext", "lz4", name="a.lz4"),
    c("misnamed_gz", None, name="a.xml.gz"),
    c("misnamed_lz4", None, name="b.lz4"),
    c("gzip_hist", "gzip", hist=True),
    c("lz4_hist", "lz4", hist=True),
    c("gzip_bad", "gzip", bad=True),
    c("lz4_bad", "lz4", bad=True),
    c("plain_bad", None, bad=True),
    c("damaged", "gzip", damaged=True),
    c("damaged_rgy", "gzip", "rgy", damaged=True),
    c("gzip_twice", "gzip", twice=True),
    c("mix", "gzip", twice="lz4"),
    c("gzip_enc", "gzip", encs=H.ENCS, locale=H.LOCALES, sym=["bin", "cg"], nm=H.LATIN),
    c("lz4_enc", "lz4", encs=H.ENCS, locale=H.LOCALES, sym=["bin", "cg"], nm=H.LATIN),
    c("plain_enc", None, encs=H.ENCS, locale=H.LOCALES, sym=["bin", "cg"], nm=H.LATIN),
    c("gzip_enc_rgy", "gzip", "rgy", encs=H.ENCS, locale=H.LOCALES, sym=["cp"], nm=H.LATIN),
    c("lz4_enc_rgy", "lz4", "rgy", encs=H.ENCS, locale=H.LOCALES, sym=["cp"], nm=H.LATIN),
    c("members", "gzip2", sym=["bin", "cg"], nm=X),
    c("members_rgy", "gzip2", "rgy", encs=H.ENCS, locale=H.LOCALES, sym=["cp"], nm=H.LATIN),
    c("members_bad", "gzip2", bad=True),
    c("words", "gzip", shape=H.ONE, sym=H.LEVELS, nm=H.WORDS),
    c("big_gzip", "gzip", shape={"cp": 1, "bin": 1100, "cr": 1, "xbin": 500}),
    c("big_lz4", "lz4", shape={"cp": 1, "bin": 1100, "cr": 1, "xbin": 500}),
    c("big_gzip_inst", "gzip", "rgy", shape={"inst": 100, "cp": 3, "ci": 1}),
    c("big_members", "gzip2", shape={"cg": 60, "cp": 3, "ci": 2}),
], "thorough": [
    c("gzip_syms", "gzip", shape=W, sym=["cp", "ci"], nm=X, cost=9),
    c("lz4_syms", "lz4", shape=W, sym=["cp", "ci"], nm=X, cost=9),
    c("gzip_symkinds", "gzip", kinds="sym", xkinds="sym", cost=9),
    c("lz4_symkinds", "lz4", kinds="sym", xkinds="sym", cost=9),
]}


def head(S, comp, tag):
    if comp in ("gzip", "gzip2"):
        # magic, method 8, flags (optional fields present), modification time, extra flags, system
        h = S.bytes("head" + tag, 7)
        if S.symbolic:
            S.assume(h[0] < 32)
        return b"\x1f\x8b\x08" + h
    if comp == "lz4":
        # magic, frame flags (version 1), block descriptor
        h = S.bytes("head" + tag, 2)
        if S.symbolic:
            S.assume(h[0] >= 0x40)
            S.assume(h[0] < 0x80)
            S.assume(h[1] < 0x80)
        return b"\x04\x22\x4d\x18" + h
    h = S.bytes("head" + tag, 4)
    if S.symbolic:
        ok = S.or_(S.eq(h[0], 0x3c), S.eq(h[0], 0x20), S.eq(h[0], 0x0a), S.eq(h[0], 0x0d), S.eq(h[0], 9),
                   S.and_(S.eq(h[0], 0xef), S.eq(h[1], 0xbb), S.eq(h[2], 0xbf)))
        S.assume(ok)
    return h


def run(S, cfg):
    g = H.Gen(S, cfg)
    spec = H.uniform_atl(g.db("d"))
    db = H.build(spec)
    if cfg.get("hist"):
        h = H.build_hist(db, H.gen_hist(S, "h", {"symf": ["lname", "seed", "simtime"], "st": "sym"}))
    p = H.xml_write(S, db)
    text = S.read_text(p)
    if cfg.get("bad"):
        return bad(S, cfg, text)
    if cfg.get("damaged"):
        return damaged(S, cfg, text)
    ref = H.xml_read(S, p)
    q = S.path(cfg.get("name", "b.xml"))
    if cfg.get("encs"):
        text, enc = H.encoded(S, S.xml_text(S.xml_of(text)), cfg["encs"])
        if cfg["comp"] is None:
            S.write_text(q, text, enc)
        else:
            S.write_compressed(q, text, cfg["comp"], head(S, cfg["comp"], "a"), enc)
    else:
        S.write_compressed(q, text, cfg["comp"], head(S, cfg["comp"], "a"))
    got = H.xml_read(S, q, cfg["how"])
    cmp_(S, cfg, got, ref, "compressed file")
    S.observe("n", len(H.db_records(S, got)))
    if cfg.get("twice"):
        c2 = "lz4" if cfg["twice"] == "lz4" else cfg["comp"]
        q2 = S.path("c.xml")
        S.write_compressed(q2, text, c2, head(S, c2, "b"))
        cmp_(S, cfg, H.xml_read(S, q2, cfg["how"]), ref, "second file")
        cmp_(S, cfg, H.xml_read(S, p), ref, "plain file again")
        cmp_(S, cfg, H.xml_read(S, q, cfg["how"]), ref, "compressed file again")


def cmp_(S, cfg, got, ref, what):
    H.seq_records(S, H.db_records(S, got), H.db_records(S, ref), what)
    if cfg.get("hist"):
        from ucis.history_node_kind import HistoryNodeKind as K
        a, b = list(got.historyNodes(K.ALL)), list(ref.historyNodes(K.ALL))
        S.check(len(a) == len(b), what + ": history nodes")
        for x, y in zip(a, b):
            for (f, v), (_, u) in zip(H.hist_fields(x), H.hist_fields(y)):
                S.check(S.eq(v, u), what + ": " + f)


def bad(S, cfg, text):
    """A document that is not valid UCIS XML is refused whether or not it is compressed."""
    e = S.xml_elem("NOTUCIS", [("a", "b")])
    q = S.path("bad.xml")
    S.write_compressed(q, S.xml_text(e), cfg["comp"], head(S, cfg["comp"], "a"))
    try:
        H.xml_read(S, q, cfg["how"])
        ok = False
    except Exception:
        ok = True
    S.check(ok, "an invalid document is refused")
    S.observe("bad", ok)


def damaged(S, cfg, text):
    """A compressed file that cannot be decompressed is refused."""
    q = S.path("damaged.xml")
    S.write_damaged(q, text, S.choice("how", ["header", "crc", "cut", "data"]))
    try:
        H.xml_read(S, q, cfg["how"])
        err = False
    except Exception:
        err = True
    S.check(err, "a damaged compressed file is read without an error")
    S.observe("err", err)
