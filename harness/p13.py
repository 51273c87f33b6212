"""Reading XML: instance data verbatim, type data reconstructed, invalid files refused, no state between reads."""
import hlib as H

BOUNDS = ("schema-shaped documents with up to 3 cover-instances, 2 covergroup types, 3 coverpoints, 2 crosses and 3 "
          "bins per point; symbolic names / type names / module names, counts, weights and thresholds; optional "
          "attributes and elements present or absent; 'range' and 'sequence' bins (one or several values); "
          "everything else the schema allows: comments, processing instructions, white space, user attributes, "
          "history references, further options, parameters, other coverage sections, arbitrary keys and cross-bin "
          "types; every bin type; dates with time zones and fractions, test statuses in every form of a boolean; count texts of 1-3 arbitrary characters; one required attribute or element "
          "removed anywhere; plain and namespace-qualified elements; two documents read with one reader; files in UTF-8, UTF-16, ISO-8859-1 "
          "and US-ASCII, declared or marked, under each of these locale encodings")
BOUNDS += H.BIGB
OUTSIDE = "bins with several ranges or sequences; excluded objects; times written as 24:00:00"
ASSUMPTIONS = ["names are unique among siblings; crossed coverpoints whose names differ only in white space at the ends are outside when the document pads them",
               "lxml's parser and schema validator are modelled (symx/fake_lxml.py); sampled paths are replayed"]

X = {"lo": 32, "hi": 0xD7FF, "suffix": "z"}
V = {"lo": 32, "hi": 0xD7FF, "suffix": "z", "var": [0, 1]}
B = {"atl": "sym", "wt": "sym", "atl_lo": 0}


def c(case, shape, **k):
    d = {"case": case, "shape": shape}
    d.update(B)
    d.update(k)
    return d


CI = {"cp": 0, "ci": 2, "cicp": 2, "cibin": 2, "cicr": 1, "cixbin": 2}
CONFIGS = {"quick": [
    c("plain", dict(CI, ci=3)),
    c("types", dict(CI, ci=3, cicp=1, cicr=0, cg=1), types="sym", nm=X),
    c("ci_pts", dict(CI, cibin=1), sym=["cicp"], nm=X, cost=2),
    c("ci_bins", dict(CI, cicp=1, cicr=0), sym=["cibin"], nm=X),
    c("ci_kinds", dict(CI, cicp=1, cicr=0), kinds="sym", cost=2),
    c("ci_xkinds", dict(CI, cicp=1, cibin=1), xkinds="sym", cost=2),
    c("ci_cr", dict(CI, cicr=2, cixbin=1), sym=["cicr"], nm=X),
    c("ci_xbins", dict(CI), sym=["cixbin"], nm=X),
    c("noopts", dict(CI, ci=1), opts="none"),
    c("partopts", dict(CI, ci=1, cibin=1, cixbin=1), opts="flags"),
    c("ns", dict(CI, ci=1), ns=True, sym=["ci"], nm=X),
    c("seqbins", dict(CI, cicr=0, cicp=1), bintext="sym"),
    c("default", dict(CI, ci=2, cicr=0), deftype=True),
    c("strip", dict(CI, ci=1), pad=True),
    c("module", dict(CI, ci=1, cicr=0), mod=True, nm=X),
    c("insts", dict(CI, ci=1, cicr=0, inst=2, cg=2), sym=["inst"], nm=X),
    c("reuse", dict(CI, cicr=0, cibin=1, cicp=1, inst=1), sym=["inst"], nm=X, reuse=2, cost=2),
    c("reuse_cg", dict(CI, cicr=1, cicp=1, cibin=1, cixbin=1, ci=1), sym=["cg"], nm=X, reuse=2),
    c("refuse", dict(CI, ci=1, cicr=1, cicp=1, cibin=1, cixbin=1), reuse=2, refuse="drop", cost=2),
    c("refuse_mod", dict(CI, ci=1, cicr=0, cicp=1, cibin=1, inst=2), reuse=2, mod=True, refuse="drop", nm=X, cost=3),
    c("refuse_x", dict(CI, inst=2, ci=2, cicr=1, cicp=2), reuse=2, refuse="cross", nm=X),
    c("refuse_cg", dict(CI, cicr=1, cicp=1, cibin=1, cixbin=1, ci=1), sym=["cg"], nm=X, reuse=2, refuse="cross"),
    c("count1", dict(CI, ci=1, cicr=0, cicp=1, cibin=1), badcount=1),
    c("count2", dict(CI, ci=1, cicr=0, cicp=1, cibin=1), badcount=2, cost=2),
    c("xcount", dict(CI, ci=1, cicr=1, cicp=1, cibin=1, cixbin=1), badcount=2, badx=True, cost=2),
    c("drop", dict(CI, ci=1, cicr=1, cicp=1, cibin=1, cixbin=1), drop=True),
    c("bintype", dict(CI, ci=1, cicr=0, cicp=1, cibin=1), badtype=True),
    c("replaced", dict(CI, ci=1, cicr=1, cicp=1, cibin=1, cixbin=1), replaced=True),
    c("badcross", dict(CI, ci=1, cicr=1, cicp=2, cibin=1, cixbin=1), badcross=True, nm=X),
    c("root", dict(CI, ci=1, cicr=0), badroot=True),
    c("decor", dict(CI, ci=2, cg=2, cicp=2, cicr=1, cixbin=2), decor=True, kinds=[H.BIN, H.ILL], cost=4, samples=60),
    c("decor_x", dict(CI, ci=1, cicp=2, cicr=2, cixbin=2), samples=60, decor=True, xkinds=[H.BIN, H.IGN], atl=2, wt=3),
    c("types_cr", dict(CI, ci=2, cicp=1, cibin=1, cixbin=1, cg=1), types="sym", nm=X),
    c("var_names", dict(CI, cicp=1, cicr=0), sym=["cibin"], nm=V, cost=2),
    c("var_pts", dict(CI, cibin=1, cicr=0), sym=["cicp"], nm=V),
    c("same", dict(dict(CI, ci=2, cg=2, cicp=2, cibin=2, cicr=2, cixbin=2), inst=2), same=True, kinds=[H.BIN, H.ILL], xkinds=[H.BIN, H.IGN]),
    c("xrefs", dict(CI, ci=1), xrefs="any"),
    c("xrep", dict(CI, ci=2, cicr=2), xrefs="rep", ways=3),
    c("dup", dict(CI, ci=3, cicr=0, cicp=1), sym=["ci"], dup=["ci"], nm=X),
    c("long", dict(CI), nm={"prefix": "n" * 300}),
    c("astral", dict(CI, ci=1, cibin=1, cicp=1), sym=["cg", "ci", "cicp", "cibin", "cicr"], nm={"lo": 0x10000, "hi": 0x10FFFF}),
    c("sub", dict(CI, inst=2, sub=2, depth=2, ci=1), sym=["sub"], nm=X),
    c("sub_same", dict(CI, inst=2, sub=2, depth=2, ci=1, cicr=0), same=True),
    c("sub_mod", dict(CI, inst=1, sub=2, depth=1, ci=1, cicr=0), mod=True),
    c("tree", dict(CI, inst=4, ci=1, cicp=1, cicr=0), tree=True),
    c("sub_reuse", dict(CI, inst=1, sub=1, ci=1, cicp=1, cicr=0), reuse=2),
    c("words", H.YONE, sym=H.LEVELS, nm=H.WORDS),
    c("ci_xnames", dict(CI, ci=1, cibin=1, cixbin=3), sym=["cixbin"], xkinds=[H.BIN, H.IGN, H.ILL], nm=X),
    c("enc", dict(CI, ci=1), encs=H.ENCS, sym=["inst", "cg", "ci", "cicp", "cibin", "cicr", "cixbin"], nm=H.LATIN),
    c("enc_locale", dict(CI, ci=1, cicr=0), encs=H.ENCS, locale=H.LOCALES, sym=["cicp", "cibin"], nm=H.LATIN),
    c("enc_rgy", dict(CI, ci=1, cicr=0), encs=H.ENCS, how="rgy", locale=H.LOCALES, sym=["cg"], nm=H.LATIN),
    c("enc_stream", dict(CI, ci=1, cicr=0), encs=H.ENCS, how="binary", locale=H.LOCALES, sym=["cibin"], nm=H.LATIN),
    c("enc_wide", dict(CI, ci=1, cicr=0), encs=[e for e in H.ENCS if e[1] != "iso8859-1"], locale=H.LOCALES,
      sym=["cg", "cibin"], nm=X),
    c("enc_ascii", dict(CI, ci=1, cicr=0), encs=[("US-ASCII", "ascii"), ("ISO-8859-1", "ascii"), ("UTF-8", "ascii")],
      locale=H.LOCALES, sym=["cg", "cibin"], nm={"lo": 33, "hi": 126, "suffix": "z"}),
    c("enc_drop", dict(CI, ci=1, cr=0, cicp=1, cibin=1), encs=H.ENCS, drop=True),
] + H.ypairs(c) + H.ybigs(c) + [
    c("path_inst_cg", dict(H.YONE, inst=2), sym=["inst", "cg"], nm={"bare": True, "seq": {"inst": [1, 3], "cg": [3, 1]}}),
    c("path_inst_sub", dict(H.YONE, inst=2, sub=1), sym=["inst", "sub"], nm={"bare": True, "seq": {"inst": [1, 3], "sub": [3, 1]}}),
    c("big_inst", dict(H.YONE, inst=200)),
    c("big_sub", dict(H.YONE, inst=1, sub=200)),
    c("big_deep", dict(H.YONE, inst=1, sub=1, depth=24)),
], "thorough": [
    c("ci3_pts", dict(CI, ci=3, cibin=1), sym=["cicp"], nm=X, cost=20),
    c("ci3_bins", dict(CI, ci=3, cicp=1, cicr=0), sym=["cibin"], nm=X, cost=20),
    c("ci3_bins3", dict(CI, ci=2, cicp=1, cicr=0, cibin=3), sym=["cibin"], nm=X, cost=20),
    c("ci3_xbins", dict(CI, ci=3, cixbin=2), sym=["cixbin"], nm=X, cost=20),
    c("types_pts", dict(CI, ci=3, cicp=1, cibin=1, cicr=0), types="sym", sym=["cicp"], nm=X, cost=20),
    c("kinds3", dict(CI, ci=2, cicp=1, cicr=0, cibin=3), kinds="sym", cost=20),
    c("reuse3", dict(CI, cicr=0, cibin=1, cicp=1, inst=1, ci=1), sym=["inst", "cg"], nm=X, reuse=3, cost=20),
    c("count3", dict(CI, ci=1, cicr=0, cicp=1, cibin=1), badcount=3, cost=9),
]}


class Doc(object):
    """Builds a document from a spec; `hook` sees every element before it is finished."""

    def __init__(self, S, cfg):
        self.S, self.cfg = S, cfg
        self.n = 0
        self.ndoc = 0

    def el(self, tag, attrs=(), text=None, kids=()):
        return self.S.xml_elem(("{http://x/u}" if self.cfg.get("ns") else "") + tag, list(attrs), text, list(kids))

    def options(self, obj, bins=None):
        """The options element; an absent option means 1."""
        S = self.S
        o = self.cfg.get("opts", "all")
        a = []
        self.n += 1
        w, t = True, True
        if o == "none":
            w = t = False
        elif o == "flags":
            w = S.flag("ow%d" % self.n)
            t = bins is not None and S.flag("ot%d" % self.n)
        if w:
            a.append(("weight", S.num(obj.weight)))
        else:
            obj.weight = 1
        if bins is not None:
            if t:
                a.append(("at_least", S.num(bins[0].at_least)))
            else:
                for b in bins:
                    b.at_least = 1
        return self.el("options", a)

    def src(self, tag):
        return self.el(tag, [("file", "1"), ("line", "1"), ("inlineCount", "1")])

    def cpbin(self, b):
        S = self.S
        cnt = self.el("contents", [("coverageCount", self.count(b))])
        form = "range"
        if self.cfg.get("bintext") == "sym":
            self.n += 1
            form = S.choice("form%d" % self.n, ["range", "sequence", "values"])
        if form == "range":
            v = self.el("range", [("from", "0"), ("to", "3")], None, [cnt])
        else:
            v = self.el("sequence", [], None, [cnt] + [self.el("seqValue", [], x) for x in
                                                       (["5"] if form == "sequence" else ["5", "7", "5", "9"])])
        ty = {H.BIN: "default" if self.cfg.get("deftype") else "bins", H.IGN: "ignore", H.ILL: "illegal"}[b.kind]
        if self.cfg.get("badtype"):
            ty = S.name("btype", 4, lo=97, hi=122)
            self.btype = ty
        return self.el("coverpointBin", [("name", b.name), ("type", ty), ("key", "0")], None, [v])

    def count(self, b):
        t = getattr(b, "text", None)
        return self.S.num(b.count) if t is None else t

    def xbin(self, b, n):
        a = [("name", b.name), ("key", "0")]
        if b.kind != H.BIN:
            a.append(("type", {H.IGN: "ignore", H.ILL: "illegal"}[b.kind]))
        return self.el("crossBin", a, None, [self.el("index", [], "0") for _ in range(n)] +
                       [self.el("contents", [("coverageCount", self.count(b))])])

    def cginst(self, ci, typename):
        S = self.S
        kids = [self.options(ci),
                self.el("cgId", [("cgName", typename), ("moduleName", "m")], None,
                        [self.src("cginstSourceId"), self.src("cgSourceId")])]
        for p in ci.cps:
            kids.append(self.el("coverpoint", [("name", p.name), ("key", "0")], None,
                                [self.options(p, p.bins)] + [self.cpbin(b) for b in p.bins]))
        for x in ci.crs:
            refs = []
            for k in x.cps:
                t = ci.cps[k].name
                if self.cfg.get("badcross") and not refs:
                    t = S.name("xref", 1, "p", "z", lo=33, hi=126)
                    self.xref = t
                if self.cfg.get("pad"):
                    t = S.name("pad%d" % k, 2, lo=32, hi=32) + t + "\n  "
                refs.append(self.el("crossExpr", [], t))
            kids.append(self.el("cross", [("name", x.name), ("key", "0")], None,
                                [self.options(x, x.bins)] + refs +
                                [self.xbin(b, len(x.cps)) for b in x.bins]))
        return self.el("cgInstance", [("name", ci.name), ("key", "0")], None, kids)

    def doc(self, insts, types):
        S = self.S
        root = [self.el("sourceFiles", [("fileName", "f.sv"), ("id", "1")]),
                self.el("historyNodes", [("historyNodeId", "0"), ("logicalName", "t"), ("testStatus", "true"),
                                         ("date", "2020-01-02T03:04:05"), ("toolCategory", "s"),
                                         ("ucisVersion", "1.0"), ("vendorId", "v"), ("vendorTool", "t"),
                                         ("vendorToolVersion", "1")])]
        self.mods = []
        ids = {}
        for path, i in H.flat(insts):
            kids = [self.src("id")]
            for g in i.own:
                a = [("weight", S.num(g.weight))]
                if self.cfg.get("opts") == "none":
                    a, g.weight = [], 1
                kids.append(self.el("covergroupCoverage", a, None,
                                    [self.cginst(ci, types.get(k, g.name)) for k, ci in enumerate(g.insts)]))
            a = [("name", i.name), ("key", "0")]
            if self.cfg.get("mod"):
                m = S.name("mod%d" % len(self.mods), 1, "m", "z", lo=32, hi=0xD7FF)
                self.mods.append(m)
                a.append(("moduleName", m))
            if self.cfg["shape"].get("sub") or self.cfg.get("tree"):
                if len(ids) < 20:
                    ids[id(i)] = S.int("id%d_%d" % (self.ndoc, len(ids)), 0)
                    H.distinct(S, list(ids.values()))
                else:
                    ids[id(i)] = 1000 + 7 * len(ids)
                    if len(ids) == 21:
                        S.assume(S.all([v < 1000 for v in list(ids.values())[:-1]]))
                a.append(("instanceId", S.num(ids[id(i)])))
                for j in i.subs:
                    j.parent = i
                if hasattr(i, "parent"):
                    a.append(("parentInstanceId", S.num(ids[id(i.parent)])))
            root.append(self.el("instanceCoverages", a, None, kids))
        self.ndoc += 1
        tag = "UCIS"
        if self.cfg.get("badroot"):
            tag = S.choice("root", ["UCIS", "UCI", "ucis", "COVERAGE"])
            self.tag = tag
        return self.el(tag, [("ucisVersion", "1.0"), ("writtenBy", "me"),
                             ("writtenTime", "2020-01-02T03:04:05")], None, root)


DECOR = ["comments", "pis", "spaces", "history", "userattr", "attrs", "options", "params", "sections", "files",
         "xtype", "keys", "hist2", "dates", "status", "xcomments"]


def decorate(S, d, root, how):
    """Content which the schema allows and which does not affect the functional coverage."""
    el = d.el
    alls = list(root.iter("*"))
    by = lambda *tags: [e for e in alls if e.tag in tags]
    if how in ("comments", "pis"):
        mk = (lambda: S.xml_comment(" <coverpoint> ")) if how == "comments" else (lambda: S.xml_pi("tool", "x='1'"))
        for e in alls:
            if len(e):
                for k in range(len(e), -1, -1):
                    e.insert(k, mk())
    elif how == "spaces":
        for e in alls:
            if len(e):
                e.text = "\n   "
                for k in e:
                    k.tail = "\t\n "
    elif how == "history":
        for e in by("contents"):
            e.append(el("historyNodeId", [], "0"))
            e.append(el("historyNodeId", [], "3"))
            e.set("nameComponent", "n")
            e.set("typeComponent", "t")
    elif how == "userattr":
        for e in by("historyNodes", "coverpointBin", "crossBin", "coverpoint", "cross", "cgInstance",
                    "covergroupCoverage", "instanceCoverages"):
            e.append(el("userAttr", [("key", "weight"), ("type", "int")], "17"))
            e.append(el("userAttr", [("key", "at_least"), ("type", "str")], "text"))
    elif how == "attrs":
        n = 0
        for e in by("coverpointBin", "crossBin", "coverpoint", "cross", "cgInstance", "instanceCoverages"):
            n += 1
            e.set("alias", "other%d" % (900 - n))
        for e in by("coverpoint"):
            n += 1
            e.set("exprString", "a%d + b" % (900 - n))
        for e in by("cgInstance"):
            e.set("excluded", "false")
            e.set("excludedReason", "none")
        for e in by("covergroupCoverage"):
            e.set("metricMode", "m")
        for k, e in enumerate(by("instanceCoverages")):
            e.set("instanceId", str(k + 4))
            e.set("parentInstanceId", "-1")
            e.set("moduleName", "mod")
    elif how == "options":
        for k, e in enumerate(by("options")):
            e.set("goal", S.num(S.int("goal%d" % k, 0)))
            e.set("comment", "5")
        for e in by("cgInstance"):
            o = e.find("options")
            for a, v in (("at_least", "91"), ("detect_overlap", "true"), ("auto_bin_max", "2"),
                         ("cross_num_print_missing", "3"), ("per_instance", "true"), ("merge_instances", "1")):
                o.set(a, v)
        for e in by("coverpoint"):
            e.find("options").set("auto_bin_max", "3")
            e.find("options").set("detect_overlap", "0")
        for e in by("cross"):
            e.find("options").set("cross_num_print_missing", "4")
    elif how == "params":
        nv = lambda tag: el(tag, [], None, [el("name", [], "weight"), el("value", [], "9")])
        for e in by("cgInstance"):
            e.insert(2, nv("cgParms"))
            e.insert(3, nv("cgParms"))
        for e in by("instanceCoverages"):
            e.insert(0, nv("designParameter"))
            e.insert(0, nv("designParameter"))
    elif how == "sections":
        def bn(tag):
            return el(tag, [("weight", "3"), ("coverageCountGoal", "8")], None,
                      [el("contents", [("coverageCount", "77")])])

        def at(e):
            return [e for e in by("instanceCoverages")]
        src = d.src
        for e in by("instanceCoverages"):
            secs = [
                el("toggleCoverage", [("weight", "5")], None, [el(
                    "toggleObject", [("name", "p5"), ("key", "0")], None,
                    [el("dimension", [("left", "1"), ("right", "0"), ("downto", "true")]), src("id"),
                     el("toggleBit", [("name", "b5"), ("key", "0")], None,
                        [el("index", [], "0"),
                         el("toggle", [("from", "0"), ("to", "1")], None, [bn("bin")])])])]),
                el("blockCoverage", [], None, [el("statement", [], None, [src("id"), bn("bin")])]),
                el("blockCoverage", [], None, [el("block", [], None, [src("statementId"), bn("blockBin"),
                                                                      src("blockId")])]),
                el("conditionCoverage", [], None, [el(
                    "expr", [("name", "x5"), ("key", "0"), ("exprString", "a&b"), ("index", "0"), ("width", "2")],
                    None, [src("id"), el("subExpr", [], "a"), bn("bin")])]),
                el("branchCoverage", [], None, [el(
                    "statement", [("statementType", "if")], None,
                    [src("id"), el("branch", [], None, [src("id"), bn("branchBin")])])]),
                el("fsmCoverage", [], None, [el("fsm", [("name", "f")], None, [
                    el("state", [("stateName", "s")], None, [bn("stateBin")]),
                    el("stateTransition", [], None, [el("state", [], "s"), el("state", [], "t"),
                                                     bn("transitionBin")])])]),
                el("assertionCoverage", [], None, [el("assertion", [("name", "a"), ("assertionKind", "assert")], None,
                                                      [bn("coverBin"), bn("passBin"), bn("failBin")])])]
            for k, s in enumerate(secs):
                e.insert(1 + k, s)
    elif how == "files":
        ids = ["7", "3", "40"]
        for k, i in enumerate(ids):
            root.insert(k, el("sourceFiles", [("fileName", "f%d.sv" % k if k < 2 else "f.sv"), ("id", i)]))
        n = 0
        for e in by("id", "cgSourceId", "cginstSourceId"):
            e.set("file", (ids + ["1"])[n % 4])
            e.set("line", str(n + 1))
            n += 1
    elif how == "xtype":
        for k, e in enumerate(by("crossBin")):
            if "type" not in e.attrib:
                e.set("type", S.choice("xt%d" % k, ["default", "bins", "auto", "", "Ignore"]) if k == 0 else "bins")
    elif how == "dates":
        f = S.choice("datef", ["%s", "%sZ", "%s+05:30", "%s-11:00", "%s.25", "%s.123456Z"])
        by("historyNodes")[0].set("date", f % by("historyNodes")[0].get("date"))
        root.set("writtenTime", f % root.get("writtenTime"))
    elif how == "status":
        by("historyNodes")[0].set("testStatus", S.choice("stf", ["true", "1", " true", "1 ", "\ttrue\n"]))
    elif how == "xcomments":
        k = S.choice("xcf", [0, 1, 2])
        for e in by("crossExpr"):
            c = S.xml_comment("c") if k < 2 else S.xml_pi("a", "b")
            if k == 1:
                e.append(c)
            else:
                c.tail, e.text = e.text, None
                e.append(c)
    elif how == "keys":
        for k, e in enumerate(alls):
            if "key" in e.attrib:
                e.set("key", ["name", "", "5"][k % 3])
    else:
        for k, e in enumerate(by("historyNodes")):
            h = el("historyNodes", [(a, v) for a, v in e.attrib.items()])
            h.set("historyNodeId", "1")
            h.set("parentId", "0")
            h.set("testStatus", "0")
            root.insert(2, h)


REQUIRED = [("UCIS", "ucisVersion"), ("UCIS", "writtenTime"), ("sourceFiles", "fileName"), ("sourceFiles", "id"),
            ("historyNodes", "logicalName"), ("historyNodes", "testStatus"), ("historyNodes", "date"),
            ("instanceCoverages", "name"), ("instanceCoverages", "key"), ("cgInstance", "name"),
            ("cgId", "cgName"), ("cgId", "moduleName"), ("coverpoint", "name"), ("coverpointBin", "name"),
            ("coverpointBin", "type"), ("contents", "coverageCount"), ("cross", "name"), ("crossBin", "name"),
            ("crossBin", "key"), ("range", "from"), ("range", "to"), ("cgSourceId", "file"), ("id", "line")]
ELEMENTS = [("UCIS", "sourceFiles"), ("UCIS", "historyNodes"), ("UCIS", "instanceCoverages"),
            ("instanceCoverages", "id"), ("cgInstance", "options"), ("cgInstance", "cgId"),
            ("cgInstance", "coverpoint"), ("coverpoint", "options"), ("coverpoint", "coverpointBin"),
            ("coverpointBin", "range"), ("range", "contents"), ("crossBin", "contents"), ("crossBin", "index"),
            ("cgId", "cgSourceId")]


def drop_one(S, root):
    what = S.choice("drop", list(range(len(REQUIRED) + len(ELEMENTS))))
    if what < len(REQUIRED):
        tag, a = REQUIRED[what]
        for e in list(root.iter()):
            if e.tag == tag:
                del e.attrib[a]
                return "%s without %s" % (tag, a)
    else:
        tag, k = ELEMENTS[what - len(REQUIRED)]
        for e in list(root.iter()):
            if e.tag == tag:
                for ch in list(e):
                    if ch.tag == k:
                        e.remove(ch)
                return "%s without %s" % (tag, k)
    return None


def read(S, text, cfg):
    """(database, error)"""
    from ucis.xml.xml_factory import XmlFactory
    try:
        if cfg.get("encs"):
            t, enc = H.encoded(S, text, cfg["encs"])
            p = S.path("e.xml")
            S.write_text(p, t, enc)
            if cfg.get("how", "factory") == "binary":
                with open(p, "rb") as fp:
                    return XmlFactory.read(fp), None
            return H.xml_read(S, p, cfg.get("how", "factory")), None
        return XmlFactory.read(S.stream(text)), None
    except Exception as e:
        return None, str(type(e))


def expected(insts, types):
    """spec with the cover-instances regrouped by type name"""
    out = []
    for i in insts:
        cgs = []
        for g in i.own:
            cgs.append(H.CG(g.name, [], [], g.insts, g.weight))
        out.append(H.Inst(i.name, cgs, i.weight, subs=expected(i.subs, types)))
    return out


def check_grouped(S, db, spec, types):
    """each cover-instance lies under the type it names; the types are exactly the names used"""
    recs = H.drop_inst_weight(H.db_records(S, db))
    got = []
    exp = []
    for k, v in recs:
        got.append((k, v))
    for i in spec:
        exp.append((["inst", i.name], []))
        for g in i.cgs:
            for k, ci in enumerate(g.insts):
                H._spec_cg(exp, [i.name, types[k]], ci, "ci")
    ins = H.inst_records([r for r in got if r[0][0] != "cg"])
    H.same_records(S, ins, exp, "instances")
    for k, v in got:
        if k[0] == "cg":
            S.check(H.once(S, got, k), "one scope per type")
            S.check(S.any([S.eq(k[2], t) for t in types.values()]), "type named by an instance")
    # type sums per type name
    src = []
    for i in spec:
        for g in i.cgs:
            for k, ci in enumerate(g.insts):
                p = [i.name, types[k]]
                for c_ in ci.cps:
                    for b in c_.bins:
                        src.append((["bin"] + p + [c_.name, b.kind, b.name], [b.count]))
    for k, v in got:
        if k[0] == "bin" and len(k) == 6:
            S.check(S.eq(v[0], H.total(S, src, k)), "type count")
    for k, v in src:
        S.check(H.present(S, [r for r in got if len(r[0]) == 6], k), "type bin missing")


def run(S, cfg):
    d = Doc(S, cfg)
    docs = []
    for r in range(cfg.get("reuse", 1)):
        docs.append(H.uniform_atl(H.Gen(S, cfg).db("d%d" % r)))
    spec = docs[0]
    if cfg.get("tree"):
        # every hierarchy of the instances
        all_i = list(spec)
        for k, i in list(enumerate(all_i))[1:]:
            p = S.choice("parent%d" % k, list(range(-1, k)))
            if p >= 0:
                all_i[p].subs.append(i)
                spec.remove(i)
    types = {}
    if cfg.get("types"):
        for k in range(len(spec[0].cgs[0].insts)):
            types[k] = S.name("type%d" % k, 1, "g", "z", lo=32, hi=0xD7FF)
    b = None
    if cfg.get("badcount"):
        ci = spec[0].cgs[0].insts[0]
        b = ci.crs[0].bins[0] if cfg.get("badx") else ci.cps[0].bins[0]
        b.text = S.name("cnt", cfg["badcount"], lo=32, hi=126)
    root = d.doc(spec, types)
    if cfg.get("drop"):
        what = drop_one(S, root)
        S.check(what is not None, "harness: nothing to drop")
        db, err = read(S, S.xml_text(root), cfg)
        S.check(err is not None, "accepted: %s" % what)
        S.observe("err", err is not None)
        return
    if cfg.get("decor"):
        decorate(S, d, root, S.choice("decor", DECOR))
        text = S.xml_text(root)
        S.check(S.schema_errors(text) is None, "harness: the document is schema-valid")
    text = S.xml_text(root)
    if cfg.get("replaced"):
        return replaced(S, cfg, d, text, root)
    if cfg.get("reuse"):
        from ucis.xml.xml_reader import XmlReader
        rd = XmlReader()
        texts = [text] + [S.xml_text(d.doc(x, {})) for x in docs[1:]]
        dbs = []
        bad = None
        if cfg.get("refuse") == "drop":           # a document that is refused, between the others
            drop_one(S, root)
            bad = S.xml_text(root)
        elif cfg.get("refuse") == "cross":        # ... by its very last element
            d2 = Doc(S, dict(cfg, badcross=True))
            rt = d2.doc(H.uniform_atl(H.Gen(S, cfg).db("bad")), {})
            S.assume(S.not_(S.any([S.eq(d2.xref, p.name) for p in spec[0].cgs[0].insts[0].cps])))
            bad = S.xml_text(rt)
        for t in texts:
            dbs.append(rd.read(S.stream(t)))
            own_dus(S, dbs[-1])
            if bad is not None:
                try:
                    rd.read(S.stream(bad))
                except Exception:
                    pass
        for k, x in enumerate(docs):
            got = H.drop_inst_weight(H.db_records(S, dbs[k]))
            H.seq_records(S, H.inst_records(got), H.drop_inst_weight(H.spec_records(expected(x, {}))),
                           "document %d" % k)
            H.check_types(S, got, x, "document %d" % k)
        S.observe("n", len(dbs))
        return
    db, err = read(S, text, cfg)
    if cfg.get("badroot"):
        S.check((err is None) == (d.tag == "UCIS"), "root element")
        S.observe("err", err is None)
        return
    if cfg.get("badtype"):
        S.check(S.implies(err is None, S.eq(d.btype, "bins")), "unknown bin type accepted")
        S.check(S.implies(S.eq(d.btype, "bins"), err is None), "bin type refused")
        S.observe("err", err is None)
        return
    if cfg.get("badcross"):
        names = [p.name for p in spec[0].cgs[0].insts[0].cps]
        known = S.any([S.eq(d.xref, n) for n in names])
        S.check(S.eq(known, err is None), "cross of an unknown coverpoint")
        S.observe("err", err is None)
        return
    if b is not None:
        # decimal digits, possibly surrounded by blanks and with a sign: everything else is refused
        ok = valid_count(S, b.text)
        if err is None:
            S.check(ok, "malformed count accepted")
            got = [v for k, v in H.db_records(S, db) if k[0] == ("xbin" if cfg.get("badx") else "bin")]
            for v in got:
                S.check(S.eq(v[0], count_value(S, b.text)), "count value")
        else:
            S.check(S.not_(ok), "well-formed count refused")
        S.observe("err", err is None)
        return
    S.check(err is None, "valid document refused: %s" % (err,))
    if err is not None:
        return
    if types:
        check_grouped(S, db, spec, types)
        S.observe("n", len(H.db_records(S, db)))
        return
    from ucis.history_node_kind import HistoryNodeKind as K
    from ucis.test_status_t import TestStatusT
    for h in db.historyNodes(K.ALL):
        S.check(S.eq(h.getDate(), "20200102030405"), "date")
    S.check(list(db.historyNodes(K.ALL))[0].getTestStatus() == TestStatusT.OK, "status")
    got = H.drop_inst_weight(H.db_records(S, db))
    H.seq_records(
        S, H.inst_records(got), H.drop_inst_weight(H.spec_records(expected(spec, {}))), "read")
    H.check_types(S, got, spec, "read")
    if cfg.get("mod"):
        from ucis.scope_type_t import ScopeTypeT
        for (_, i), m in zip(H.db_insts(db), d.mods):
            S.check(S.eq(i.getInstanceDu().getScopeName(), m), "design unit name")
    S.observe("recs", [[k, v] for k, v in got])


def own_dus(S, db):
    """the design units of the instances are scopes of the database itself"""
    from ucis.scope_type_t import ScopeTypeT
    dus = list(db.scopes(ScopeTypeT.ALL))
    for _, i in H.db_insts(db):
        du = i.getInstanceDu()
        S.check(len([1 for x in dus if x is du]) == 1, "design unit of another database")


def replaced(S, cfg, d, text, root):
    """A file is read, replaced by another one, and read again: the second reading is that of the new content."""
    from ucis.xml.xml_factory import XmlFactory
    p = S.path("r.xml")
    S.write_text(p, text)
    XmlFactory.read(p)
    what = drop_one(S, root)
    S.write_text(p, S.xml_text(root))
    try:
        XmlFactory.read(p)
        ok = False
    except Exception:
        ok = True
    S.check(ok, "accepted on the second reading: %s" % what)
    S.write_text(p, text)
    try:
        XmlFactory.read(p)
        ok = True
    except Exception:
        ok = False
    S.check(ok, "refused on the third reading")


def digit(S, ch):
    return S.any([S.eq(ch, x) for x in "0123456789"])


def dval(S, ch):
    return S.wsum([(S.eq(ch, str(k)), k) for k in range(10)])


def valid_count(S, t):
    n = len(t)
    ch = [t[k] for k in range(n)]
    sp = [S.eq(x, " ") for x in ch]
    dg = [digit(S, x) for x in ch]
    alts = []
    # blanks* sign? digits+ blanks*
    for a in range(n):
        for z in range(a, n):
            pre = S.all(sp[:a])
            post = S.all(sp[z + 1:])
            alts.append(S.and_(pre, post, S.all(dg[a:z + 1])))
            if z > a:
                alts.append(S.and_(pre, post, S.eq(ch[a], "+"), S.all(dg[a + 1:z + 1])))
                alts.append(S.and_(pre, post, S.eq(ch[a], "-"), S.all([S.eq(x, "0") for x in ch[a + 1:z + 1]])))
    return S.any(alts)


def count_value(S, t):
    v = 0
    for k in range(len(t)):
        d = digit(S, t[k])
        v = S.ite(d, v * 10 + dval(S, t[k]), v)
    return v
