"""C13: replay of every client history of spec/History.tla."""
import json
import os
import tempfile

import library
import tlc
from build import V
from record import Limit, Rec, call_parse, guarded, outcome

CFG = """SPECIFICATION Spec
CONSTANTS
  Graph <- SoloGraph
  Input <- SoloInput
  MaxEvents = %d
  MaxHandles = %d
INVARIANTS HistoryFree
PROPERTIES TableFixed
CHECK_DEADLOCK FALSE
"""


def explore(check, module, cfg, lib):
    fd, path = tempfile.mkstemp(suffix=".json", prefix="lib")
    try:
        with os.fdopen(fd, "w") as f:
            json.dump(lib, f)
        res = tlc.run(module, cfg, {"LIB_FILE": path}, timeout=850)
    finally:
        os.unlink(path)
    if res["violated"]:
        raise tlc.TLCError("the specification itself violates %s\n%s" % (res["violated"], res["out"][-2000:]))
    check.states += res["distinct"]
    check.transitions += res["states"]
    return tlc.printed(res["out"], "CASE"), {t["lib"]: t["o"] for t in tlc.printed(res["out"], "TABLE")}, res


def matches(want, got):
    """specification outcome against observed outcome"""
    if want["k"] != got["k"]:
        return False
    if want["k"] == "val":
        return want["v"] == got["v"]
    return len(want["e"]) == len(got["e"]) and all(w[f] == x[f] for w, x in zip(want["e"], got["e"]) for f in w)


def open_lib(L, real, style):
    return Rec.reopen(dict(nodes=L["nodes"], mode=real["mode"], style=style, late=[], early=style % 2 == 1, tag="",
                           inputs=L["inputs"], types=real["types"]))


def one_alone(arg):
    """Outcome of a combo in fresh parsers: (f, t)"""
    L, real, c, style = arg
    R = open_lib(L, real, style)
    x = L["combos"][c]
    kind, r = guarded(call_parse, R.env.p[x["r"]], R.streams[x["i"] - 1], L["km"], x["m"] == "slow", x["mi"], style)
    if kind != "ok":
        return [outcome(kind, r)] * 2
    return [outcome(*guarded(r.unwrap, recover=u)) for u in (False, True)]


def replay(arg):
    """-> index of the first event whose outcome differs from that of the parse done alone, or -1"""
    L, real, hist, alone, style, meddle = arg
    R = open_lib(L, real, style)
    hs = []
    for n, (e, x, y) in enumerate(hist):
        if Limit.hangs:
            return n
        if e == "p":
            c = L["combos"][x - 1]
            kind, r = guarded(call_parse, R.env.p[c["r"]], R.streams[c["i"] - 1], L["km"], c["m"] == "slow", c["mi"], style + n)
            if kind == "ok":
                if alone[x - 1][0]["k"] not in ("val", "err"):
                    return n
                hs.append((r, x, 0))
            elif kind != alone[x - 1][0]["k"]:
                return n
        elif e == "u":
            r, c, f = hs[x - 1]
            kind, v = guarded(r.unwrap, recover=bool(y))
            o, w = outcome(kind, v), alone[c - 1][y]
            if f and w["k"] == "val":
                w = dict(w, v={"t": "f", "s": "", "n": f, "c": [w["v"]]})
            if o != w:
                return n
            if meddle and kind == "err":          # the client edits the exception it caught
                for it in v.errors:
                    if isinstance(it.expected, list):
                        it.expected.insert(0, "junk")
                v.errors.clear()
        else:
            r, c, f = hs[x - 1]
            kind, r2 = guarded(r.fmap, lambda v, n=y: V("f", "", n, (v,)))
            if kind != "ok":
                return n
            hs.append((r2, c, y))
    return -1


def run(check):
    deep = check.tier == "thorough"
    lib, real = library.library(library.ALL, [("fast", 5), ("slow", 5)], 8 if deep else 6)
    cases, tables, res = explore(check, "History.tla", CFG % ((5, 3) if deep else (4, 3)), lib)
    # what each parse gives on its own, in a process of its own
    import isolated
    alone = {}
    off = 0
    for x, L in enumerate(lib):
        for c in range(len(L["combos"])):
            got, how = isolated.run(one_alone, [(L, real[x], c, check.seed % 12)], 60)
            if how:
                check.violation("a parse on its own: the process ended with " + how, {"process"}, dict(lib=L, combo=c))
                return
            alone.setdefault(x, []).append(got[0])
            t = tables[x + 1][c]
            off += not (matches(t["f"], got[0][0]) and matches(t["t"], got[0][1]))
    items = [(lib[k["lib"] - 1], real[k["lib"] - 1], k["h"], alone[k["lib"] - 1], (check.seed + j) % 12, j % 3 != 0)
             for j, k in enumerate(cases)]
    got = check.spread(replay, items, "replay of client histories")
    check.traces += len(got)
    wrong = sorted(((it, n) for it, n in got if n >= 0), key=lambda g: (g[1], len(g[0][2])))
    for it, n in wrong[:10]:
        check.violation("history %s, event %d" % (it[2], n + 1), {"history"},
                        dict(nodes=it[0]["nodes"], inputs=it[0]["inputs"], text=it[2], combos=it[0]["combos"]))
    check.parts.append(dict(part="History.tla exhaustive", libraries=[L["name"] for L in lib], states=res["distinct"],
                            histories_replayed=len(cases), parses_alone_not_as_specified=off))
    check.samples.append(dict(library=lib[0]["name"], combos=lib[0]["combos"], history=cases[len(cases) // 2]["h"]))
