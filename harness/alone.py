"""The same parse, done alone in a fresh process."""
import isolated
from record import Rec


def rerun(arg):
    s, l = arg
    R = Rec.reopen(s)
    e = s["ev"][l - 1]
    chain = []
    n = 0                                  # handle number -> event that made it
    made = {}
    for j, x in enumerate(s["ev"]):
        if x["e"] in ("parse", "rfmap"):
            n += 1
            made[n] = j
    if e["e"] == "unwrap":
        h = e["h"]
        while True:
            x = s["ev"][made[h]]
            chain.insert(0, x)
            if x["e"] == "parse":
                break
            h = x["h"]
    elif e["e"] == "parse":
        chain = [e]
    else:
        return None
    h = 0
    for x in chain:
        if x["e"] == "parse":
            h = R.parse(x["r"], x["i"], x["m"] == "slow", x["mi"], x["km"])
        elif h:
            h = R.rfmap(h, x["n"])
    if e["e"] == "unwrap":
        return R.ev[R.unwrap(h, e["u"]) - 1]["o"] if h else R.ev[-1]["o"]
    return R.ev[-1]["o"]


def alone(s, l):
    """Does the outcome of event l depend on what came before it?"""
    if s["ev"][l - 1]["e"] not in ("unwrap", "parse"):
        return True
    got, how = isolated.run(rerun, [(s, l)], 60)
    return bool(how) or got[0] != s["ev"][l - 1]["o"]
