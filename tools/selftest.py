"""Shows that spec/Trace.tla is not satisfied by just anything: records sessions from the real library, falsifies one
observed field in each, and lists the falsifications that no clause noticed.  (Run by hand.)"""
import collections
import copy
import os
import random
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(HERE, "harness"), os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src")]
sys.setrecursionlimit(10000)
import profiles  # noqa: E402
import tlc  # noqa: E402


def spots(s):
    """(what, function that falsifies a copy of the session)"""
    out = []
    for j, e in enumerate(s["ev"]):
        def put(what, fn, j=j):
            out.append((e["e"] + "." + what, lambda t, fn=fn, j=j: fn(t["ev"][j])))
        o = e["o"]
        if e["e"] in ("parse", "unwrap", "rfmap", "define"):
            put("kind", lambda v: v["o"].update(k="other:Falsified"))
        if e["e"] == "unwrap" and o["k"] == "val":
            put("kind2", lambda v: v["o"].update(k="err", m="at 0: unexpected input", e=[]))
            put("value", lambda v: v["o"].update(v=dict(t="tup", s="", n=0, c=[v["o"]["v"]])))
            put("value.n", lambda v: v["o"]["v"].update(n=v["o"]["v"]["n"] + 1))
        if e["e"] == "unwrap" and o["k"] == "err":
            put("kind2", lambda v: v["o"].update(k="val", v=dict(t="none", s="", n=0, c=[])))
            put("message", lambda v: v["o"].update(m=v["o"]["m"] + " "))
            for n in range(len(o["e"])):
                def item(what, fn, n=n):
                    put("item." + what, lambda v: fn(v["o"]["e"][n]))
                item("pos", lambda x: x.update(p=x["p"] + 1))
                item("line", lambda x: x.update(l=x["l"] + 1))
                item("col", lambda x: x.update(c=x["c"] + 1))
                item("locstr", lambda x: x.update(s=x["s"] + "0"))
                item("expected+", lambda x: x.update(ex=x["ex"] + ["falsified"]))
                item("itemmsg", lambda x: x.update(m=x["m"] + "."))
                if o["e"][n]["ex"]:
                    item("expected-", lambda x: x.update(ex=x["ex"][1:]))
                if o["e"][n]["k"] == "skip":
                    item("skip", lambda x: x.update(n=x["n"] + 1))
                if o["e"][n]["k"] == "ins":
                    item("insert", lambda x: x.update(b=x["b"] + "x"))
                put("item.dropped", lambda v, n=n: v["o"].update(e=v["o"]["e"][:n] + v["o"]["e"][n + 1:]))
                put("item.doubled", lambda v, n=n: v["o"].update(e=v["o"]["e"][:n + 1] + v["o"]["e"][n:]))
        if e["e"] == "parse" and e["lg"]:
            put("calls+", lambda v: v.update(us=v["us"] + [dict(n=1, v=dict(t="none", s="", n=0, c=[]))]))
            if e["us"]:
                put("calls-", lambda v: v.update(us=v["us"][:-1]))
        if e["e"] == "parse" and e["m"] == "slow":
            put("callback+", lambda v: v.update(fl=v["fl"] + [999999]))
        if e["e"] == "stream" and e["st"]:
            put("contents", lambda v: v.update(st=v["st"][1:]))
        if e["e"] == "lex" and o["k"] == "lexerror":
            put("place", lambda v: v.update(x=[v["x"][0], v["x"][1], v["x"][2] + 1]))
            put("message", lambda v: v["o"].update(m=v["o"]["m"] + "0"))
        if e["e"] == "lex" and o["k"] == "tokens":
            out.append(("lex.token", lambda t, j=j: t["inputs"][t["ev"][j]["i"] - 1].append(
                dict(k="k", v="v", n=1, o=dict(p=0, l=0, c=0), z=dict(p=0, l=0, c=0)))))
    return out


def main(n):
    todo, seen = [], collections.Counter()
    for pid in ("C01", "C06", "C11", "C13", "C16", "C20", "C21", "C22"):
        for it in range(n):
            s = profiles.make((pid, "self", it))
            if not s:
                continue
            rng = random.Random("%s/%d" % (pid, it))
            by = collections.defaultdict(list)
            for what, fn in spots(s):
                by[what].append(fn)
            for what in rng.sample(sorted(by), min(4, len(by))):
                t = copy.deepcopy(s)
                rng.choice(by[what])(t)
                todo.append((what, t))
    vs, _ = tlc.validate([t for _, t in todo])
    missed = collections.Counter()
    for (what, t), v in zip(todo, vs):
        seen[what] += 1
        if not v["bad"] and v["fuel"] >= 0:
            missed[what] += 1
    for what in sorted(seen):
        print("%-24s falsified %4d  unnoticed %d" % (what, seen[what], missed[what]))
    return 1 if missed else 0


if __name__ == "__main__":
    sys.exit(main(int(sys.argv[1]) if len(sys.argv) > 1 else 40))
