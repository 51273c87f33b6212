"""Test records (history nodes) survive a write to XML and a read."""
import hlib as H

BOUNDS = ("1-3 history nodes; every text field symbolic in turn: one arbitrary XML character (U+0020..U+D7FF) or "
          "markup/white-space character, optionally inside a longer text; simulation/CPU time and cost: every "
          "multiple of 1/8 in 0..10^6; sameTests: every non-negative integer; every date 1990..2999; "
          "kind TEST or MERGE; status OK, ERROR or FATAL; every field set or left unset")
OUTSIDE = "parent links (not written), user attributes, times beyond the range"
ASSUMPTIONS = ["the local time zone is UTC or one whose clocks skip an hour on March 1st", "dates are YYYYMMDDHHMMSS strings",
               "compulsory and args are text", "lxml and datetime are modelled; sampled paths are replayed"]

WS = {"alphabet": "\t\n\r <&>\"'"}
ALLT = H.HTEXT + H.HTEXT2 + ["comment", "pname", "lname"]

CONFIGS = {"quick": [
    {"case": "status", "n": 2, "st": "sym", "kind": "sym"},
    {"case": "names", "n": 2, "symf": ["lname", "pname"]},
    {"case": "text1", "n": 1, "symf": ["runcwd", "seed", "cmd", "args"]},
    {"case": "text2", "n": 1, "symf": ["compulsory", "user", "timeunit", "comment"]},
    {"case": "text3", "n": 1, "symf": H.HTEXT2},
    {"case": "text_ws", "n": 1, "symf": ["cmd", "comment", "lname"], "nm": WS},
    {"case": "text_len", "n": 1, "symf": ["args", "user", "comment", "vendor"], "nm": {"lo": 32, "hi": 0xD7FF, "var": [0, 2]}},
    {"case": "text_len2", "n": 1, "symf": ["runcwd", "seed", "cmd", "lname"], "nm": {"lo": 32, "hi": 0xD7FF, "var": [0, 2]}},
    {"case": "text_len3", "n": 1, "symf": ["compulsory", "timeunit", "pname"], "nm": {"lo": 32, "hi": 0xD7FF, "var": [0, 2]}},
    {"case": "text_len4", "n": 1, "symf": ["tool", "toolver", "toolcat"], "nm": {"lo": 32, "hi": 0xD7FF, "var": [0, 2]}},
    {"case": "numbers", "n": 2, "symf": ["simtime", "cputime", "cost", "same"]},
    {"case": "date", "n": 1, "date": "sym"},
    {"case": "date_dst", "n": 1, "date": "sym", "dst": True},
    {"case": "testdata", "n": 2, "how": "testdata", "symf": ["cmd", "seed", "simtime", "cost"], "st": "sym"},
    {"case": "unset_t", "n": 1, "unset": ALLT[:-1] + ["simtime", "cputime", "cost", "same"]},
    {"case": "unset_d", "n": 2, "unset": ["date"]},
    {"case": "three", "n": 3, "kind": "sym"},
    {"case": "stream", "n": 2, "st": "sym", "symf": ["lname"], "w": "writer", "r": "loads"},
    {"case": "astral", "n": 1, "symf": ["cmd", "lname", "comment"], "nm": {"lo": 0x10000, "hi": 0x10FFFF}},
    {"case": "words", "n": 1, "symf": ["lname", "pname", "cmd", "user", "seed", "args", "compulsory", "toolcat", "comment"], "nm": H.WORDS},
    {"case": "words2", "n": 1, "symf": ["vendor", "tool", "toolver", "timeunit", "runcwd", "user"], "nm": H.WORDS},
    {"case": "fine", "n": 1, "symf": ["simtime", "cputime", "cost"], "den": 1 << 32},
    {"case": "many", "n": 60},
    {"case": "num", "n": list(range(1, 15))},
    {"case": "many_unset", "n": 40, "unset": ["date", "cmd", "args", "seed", "comment"], "how": "setters"},
], "thorough": [
    {"case": "text_all", "n": 2, "symf": ALLT, "cost": 5},
    {"case": "text_n3", "n": 1, "symf": ALLT, "nm": {"lo": 32, "hi": 0xD7FF, "n": 3}, "cost": 5},
    {"case": "text_ws_all", "n": 1, "symf": ALLT, "nm": WS, "cost": 5},
    {"case": "all", "n": 2, "st": "sym", "kind": "sym", "date": "sym", "symf": ALLT + ["simtime", "cputime", "cost",
                                                                                       "same"], "cost": 9},
    {"case": "four", "n": 4, "kind": "sym", "st": "sym", "cost": 30},
]}


def run(S, cfg):
    from ucis.history_node_kind import HistoryNodeKind as K
    from ucis.test_status_t import TestStatusT as T
    if isinstance(cfg["n"], list):
        cfg = dict(cfg, n=S.choice("number", cfg["n"]))
    hs = [H.gen_hist(S, "h%d" % k, cfg) for k in range(cfg["n"])]
    db = H.build([H.Inst("i", [H.CG("g", [H.CP("p", [H.Bin("b", 1)])])])])
    nodes = [H.build_hist(db, h, cfg.get("how", "setters")) for h in hs]
    want = [H.hist_fields(n) for n in nodes]
    # what is stored before writing is what was given
    for h, w in zip(hs, want):
        d = dict(w)
        for f in H.HTEXT + H.HTEXT2 + ["comment", "simtime", "cputime", "cost", "same", "date"]:
            if getattr(h, f) is not None:
                S.check(S.eq(d[f], getattr(h, f)), "stored " + f)
    db2 = H.xml_read(S, H.xml_write(S, db, cfg.get("w", "factory")), cfg.get("r", "factory"))
    got = list(db2.historyNodes(K.ALL))
    S.check(len(got) == len(hs), "number of history nodes")
    for k, (n, w) in enumerate(zip(got, want)):
        for (f, v), (_, v2) in zip(H.hist_fields(n), w):
            if f == "status":
                S.check((v == T.OK) == (v2 == T.OK), "node %d: passed/failed status" % k)
            elif f == "date" and "date" in cfg.get("unset", []):
                continue
            else:
                S.check(S.eq(v, v2), "node %d: %s" % (k, f))
    for kd in (K.TEST, K.MERGE):
        sel = list(db2.historyNodes(kd))
        exp = [n for n, h in zip(got, hs) if h.kind == kd]
        S.check(len(sel) == len(exp) and all([a is b for a, b in zip(sel, exp)]), "nodes selected by kind")
    S.observe("hist", [[f, v] for n in got for f, v in H.hist_fields(n)
                       if f not in ("kind", "status") and not (f == "date" and "date" in cfg.get("unset", []))])
