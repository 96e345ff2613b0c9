"""Whether the trace specifications look at everything that is recorded.

Answers of the library (from the working tree) are recorded, each part of each
answer is altered in turn, and the altered answers are judged: every one has to
be rejected.  Run as `check.py --selftest`; it is no check of the library."""
import copy

import core, session

OBJ = [
    "mtllib a.mtl b.mtl\no first\nv 1 2 3\nv 4 5 6 0.5\nv 7 8 9\nvt 0.25\nvt 1 2 3\nvn 0 0 1\nvn 1 0 0\n"
    "g a b\ns 1\nusemtl m\nf 1/1/1 2/2/2 3/1/2\ns off\ng c\nf 1 2 3 1\nusemtl n\nl 1/1 2/2\np 1 2\n"
    "o second\nv 1 1 1\nv 2 2 2\nusemtl m\nl 4 -1\nl 4//3 5//3\n",
    "v 1 2 3\np 1\n",
    "mtllib x\n",
    "o last\n",
]
OBJ[0] = OBJ[0].replace("l 4//3 5//3\n", "vn 0 1 0\nl 4//3 5//3\n")
VIEW = "v 1 2 3\nvt 1\nvn 0 0 1\ng a b\ns 1\nusemtl m\nf 1/1/1 1/1/1 1/1/1\ng c\nl 1 1\n"
OBJ_BAD = ["v 1 2 x\n", "\n\nf 1 2\n", "v 1 1 1\np 2\n", "o\n", "s x\n", "v 1 2"]
MTL = ["newmtl a\nKa 1 2 3\nKd 4 5 6\nKs 7 8 9\nKe 0.1 0.2 0.3\nNs 10\nNi 1.5\nd 0.5\nillum 1\nmap_Ka a.png\nmap_Kd b\n"
       "map_Ks c\nmap_Ke d\nmap_Ns e\nmap_d f\nbump g\ndisp h\ndecal i\nnewmtl b\n", "newmtl only\n"]
MTL_BAD = ["Ka 1 2 3\n", "newmtl\n", "newmtl a\nillum 3\n", "newmtl a\nKa 1 2\n", "newmtl a\nnope\n"]


def leaves(x, at=()):
    """Every place in an answer that can be altered."""
    if isinstance(x, dict):
        for k in x:
            yield from leaves(x[k], at + (k,))
    elif isinstance(x, list):
        yield at
        for i, y in enumerate(x):
            yield from leaves(y, at + (i,))
    else:
        yield at


def put(x, at, y):
    x = copy.deepcopy(x)
    z = x
    for k in at[:-1]:
        z = z[k]
    if at:
        z[at[-1]] = y
        return x
    return y


def get(x, at):
    for k in at:
        x = x[k]
    return x


def altered(r):
    """(where, how, altered answer)"""
    for at in leaves(r):
        y = get(r, at)
        if isinstance(y, bool):
            yield at, "negated", put(r, at, not y)
        elif isinstance(y, int):
            yield at, "+1", put(r, at, y + 1)
        elif isinstance(y, str):
            yield at, "other", put(r, at, y + "0")
        elif isinstance(y, list):
            # three indices make a corner, and a set has two ends
            if y and at[-2:-1] != ("x",) and not ("dis" in at and at[-1] in ("v", "vt", "vn", "g", "s", "e")):
                yield at, "shorter", put(r, at, y[:-1])
                yield at, "longer", put(r, at, y + [y[-1]])
                if y[0] != y[-1] and type(y[0]) is type(y[-1]):
                    yield at, "exchanged", put(r, at, [y[-1]] + y[1:-1] + [y[0]])


# what of a record the library answered (the rest was asked)
ANSWERED = {
    "ObjTrace": lambda at: at[0] == "r" and at != ("r", "st"),
    "MtlTrace": lambda at: at[0] == "r" and at != ("r", "st"),
    "ViewTrace": lambda at: at[-1] != "rt" and at not in (("r", "dis"), ("rt",)) and (at[0] == "r" and at[1] in ("dis", "setdis")) or (at[0] == "rt" and at[-1] != "st") or
                            (at[0] == "r" and at[1] == "acc" and "r" in at[1:]) or (at[:2] == ("r", "rows") and at[-1] == "same"),
    "PairTrace": lambda at: at[0] in ("r", "q", "w") and at[1:] != ("st",),
    "EqTrace": lambda at: at[0] in ("eq", "qe", "ne", "copy") or (at[0] == "items" and len(at) == 3 and at[-1] in ("eq", "ne")),
}
def free(module, at):
    """What is not compared, and why."""
    if at[-1:] == ("disp",):
        return "the wording of errors is free after the line"
    if module == "ViewTrace" and at[0] == "rt" and at[4] in ("g", "s", "sh", "geo"):
        return "an object read back has to say the same, by names, in as many sets as it likes"
    if module == "PairTrace" and at[1:] == ("line",):
        return "between lines with the same words before them layout makes no difference"
    return ""


def trimmed(module, r):
    """Long tables are cut short (each row is judged like the others)."""
    if module == "EqTrace":
        r["items"] = r["items"][::1 + len(r["items"]) // 12]
    elif module == "ViewTrace" and "acc" in r["r"]:
        r["r"]["acc"] = [a[::1 + len(a) // 8] for a in r["r"]["acc"]]
    elif module == "ViewTrace" and "rows" in r["r"]:
        r["r"]["rows"] = r["r"]["rows"][::17]
    return r


class Altering(session.Session):
    """A session that judges alterations of what it recorded."""

    def judge(self, module, records):
        again, what = [], []
        for r in records:
            r = trimmed(module, copy.deepcopy(r))
            for at, how, q in [((), "as recorded", r)] + list(altered(r)):
                if at and (at[0] in ("id", "s", "t", "u", "fl", "rel", "n") or len(at) == 1 and isinstance(r[at[0]], (dict, list))
                           or not ANSWERED[module](at)):
                    continue
                again.append(dict(q, id=len(again)))
                what.append((r, at, how))
        print(module, len(again), "answers", flush=True)
        j = core.judge(module, again)
        rejected = {m["id"] for m in j.mismatches}
        self.altered = getattr(self, "altered", 0) + len(again)
        self.holes = getattr(self, "holes", [])
        for i, (r, at, how) in enumerate(what):
            if (how == "as recorded") == (i in rejected) and not (at and free(module, at)):
                self.holes.append((module, r.get("s", ""), at, how))
        j.mismatches = []
        return j


def run():
    s = Altering("C16", "quick", 1)
    s.bins = {"dev": core.build(("dev",))["dev"]}
    s.texts("obj", [("", OBJ + OBJ_BAD)])
    s.texts("mtl", [("", MTL + MTL_BAD)])
    s.views([("", [VIEW])])
    s.views([("", [OBJ[1]])], "objm")
    s.bins["release"] = s.bins["dev"]
    s.pairs([("layout", "obj", OBJ[1], OBJ[1].replace(" ", "\t"), None), ("layout", "mtl", MTL[1], MTL[1] + "\n", None),
             ("extend", "obj", OBJ_BAD[0], OBJ_BAD[0] + "p 1\n", None), ("layout", "obj", OBJ_BAD[0], OBJ_BAD[0].replace(" ", "  "), None)])
    s.equality([("obj", OBJ[0], OBJ[0]), ("obj", OBJ[0], OBJ[1]), ("mtl", MTL[0], MTL[1]), ("mtl", MTL[0], MTL[0])])
    for module, t, at, how in s.holes:
        print("not noticed: %s: %s %s of %r" % (module, how, "/".join(map(str, at)), t[:60]))
    print("%d altered answers, %d not noticed" % (s.altered, len(s.holes)))
    return 1 if s.holes else 0


if __name__ == "__main__":
    raise SystemExit(run())
