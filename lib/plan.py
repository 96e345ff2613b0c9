"""What each property's check runs: bounded families explored by TLC, and
generated texts.  Numbers are for the quick tier; `k` scales them."""
import random

import gen

# property -> [(module, profile, fragments quick, fragments thorough)]
O, M = "ObjModel", "MtlModel"
MODELS = {
    "C01": [(O, "lex", 4, 6), (O, "keywords", 3, 4), (O, "slash", 4, 6), (O, "objects", 3, 5), (M, "struct", 4, 5), (M, "lex", 4, 5),
            (M, "maps", 3, 4), (O, "refshape", 3, 5)],
    "C02": [(O, "refs", 4, 5), (O, "points", 4, 5), (O, "face", 4, 5), (O, "polyline", 3, 5), (O, "objects", 3, 5), (O, "forward", 4, 6), (O, "refshape", 3, 4)],
    "C03": [(O, "refs", 4, 5), (O, "refnum", 4, 5), (O, "points", 4, 5), (O, "polyline", 4, 5), (O, "objects", 3, 5), (O, "forward", 4, 6)],
    "C04": [(O, "face", 4, 6), (O, "polyline", 4, 6), (O, "points", 4, 5), (O, "slash", 4, 6), (O, "refshape", 4, 5), (O, "joined", 3, 5)],
    "C05": [(O, "vertices", 4, 6), (O, "optional", 4, 6), (O, "objects", 3, 5), (O, "lexnum", 4, 5), (O, "joined", 3, 5)],
    "C06": [(O, "real", 4, 6), (O, "realword", 3, 4), (O, "refnum", 3, 5), (O, "smoothnum", 3, 5), (M, "illum", 3, 5),
            (M, "numbers", 3, 4)],
    "C07": [(O, "groups", 4, 6), (O, "leak", 4, 6), (O, "mixed", 3, 5), (O, "names", 3, 5)],
    "C08": [(O, "smooth", 4, 6), (O, "leak", 4, 6), (O, "smoothnum", 4, 5), (O, "mixed", 3, 5)],
    "C09": [(O, "materials", 4, 6), (O, "leak", 4, 6), (O, "mixed", 3, 5), (O, "names", 3, 5)],
    "C10": [(O, "objects", 4, 6), (O, "leak", 4, 6), (O, "mixed", 3, 5), (O, "names", 4, 5)],
    "C11": [(O, "lines", 3, 4), (O, "names", 3, 4), (O, "mixed", 3, 4), (M, "lines", 3, 4), (O, "joined", 3, 4)],
    "C12": [(O, "keywords", 4, 5), (O, "names", 4, 5), (O, "vertices", 4, 5), (O, "slash", 4, 6), (O, "mixed", 3, 5),
            (O, "lexnum", 3, 5), (O, "refshape", 3, 5), (O, "joined", 4, 5), (O, "forward", 4, 5)],
    "C13": [(O, "lines", 4, 5), (O, "names", 4, 5), (O, "lexnum", 4, 5), (O, "keywords", 3, 4), (M, "lines", 4, 5),
            (M, "struct", 3, 5), (O, "joined", 3, 4), (O, "refshape", 3, 4)],
    "C14": [(M, "fields", 3, 4), (M, "materials", 4, 6), (M, "numbers", 3, 4)],
    "C15": [(M, "struct", 4, 5), (M, "illum", 4, 5), (M, "numbers", 4, 5), (M, "maps", 4, 5), (M, "lex", 4, 5)],
    "C16": [(O, "mixed", 3, 4), (O, "refs", 3, 4)],
    "C17": [(O, "mixed", 3, 4), (M, "materials", 3, 4), (O, "objects", 3, 3), (M, "struct", 3, 3), (O, "forward", 3, 4)],
    "C18": [(O, "mixed", 4, 4), (O, "objects", 3, 4), (M, "materials", 3, 4), (O, "forward", 4, 5)],
    "C19": [(O, "refs", 4, 5), (O, "face", 3, 4)],
    "C20": [(O, "mixed", 3, 4), (O, "groups", 3, 4), (O, "optional", 3, 4), (M, "materials", 3, 4), (M, "fields", 2, 3)],
}

LATE = {"quick": [2, 300, 5003], "thorough": [2, 17, 300, 1030, 5003, 70000]}
ASSETS_SMALL = {"cube.obj", "cube_vt.obj"}


def _assets(names=None, ext=".obj"):
    return [t for f, t in gen.assets() if f.endswith(ext) and (names is None or f in names)]


def _scales(rng, whats, tier):
    for w in whats:
        yield from gen.scale(rng, w, tier)


# One text per entry in which one thing is there as often as no counter of 16
# bits can count (quick) or more (thorough).
HUGE = {
    "C01": ["lines", "blank lines", "comments", "crlf lines", "blanks", "word", "bad word", "digits", "corners", "objects", "names",
            "mtl lines", "mtl blank lines", "mtl word", "mtl bad word", "mtl statements"],
    "C02": ["vertices", "elements"], "C03": ["vertices", "texture vertices", "normals"],
    "C04": ["elements", "corners", "segments", "points"], "C05": ["vertices", "texture vertices", "normals"],
    "C06": ["digits"], "C07": ["groups", "names", "elements", "word"], "C08": ["smooth", "elements"],
    "C09": ["materials", "elements", "word"], "C10": ["objects", "libraries", "word"], "C12": ["corners", "libraries", "segments"],
    "C13": ["lines", "comments", "crlf lines", "blank lines", "mtl lines", "mtl blank lines"],
    "C14": ["mtl materials", "mtl statements", "mtl word"], "C15": ["mtl materials", "mtl blank lines"],
}


def huge(pid, rng, tier, kind):
    for w in HUGE.get(pid, []):
        if w.startswith("mtl") == (kind == "mtl"):
            for n in ([65536 + 40] if tier == "quick" else [32768 + 40, 65536 + 40, 131072 + 40]):
                yield gen.huge(rng, w, n)


def obj_texts(pid, rng, tier):
    """(family name, texts) for an OBJ property."""
    k = 1 if tier == "quick" else 12
    broad = 1 if pid not in ("C06",) else 0
    fams = []

    def fam(name, it):
        fams.append((name, list(it)))
    if broad:
        fam("structured", gen.structured(rng, 250 * k))
        fam("multi_object", gen.multi_object(rng, 120 * k))
        fam("coincidences", gen.coincidences(rng, 400 * k))
        fam("long structured", gen.structured(rng, 40 * k, size=120))
        fam("long coincidences", gen.coincidences(rng, 60 * k, 150))
        fam("mutated", gen.mutated(rng, 300 * k))
        fam("assets", _assets(ASSETS_SMALL if tier == "quick" else None))
    S = {
        "C01": ["long", "lines"], "C02": ["vertices", "objects"], "C03": ["vertices", "objects"],
        "C04": ["polygon", "polyline", "elements"], "C05": ["vertices", "objects", "long"], "C06": ["long"],
        "C07": ["groups", "elements", "long"], "C08": ["smooth", "elements"], "C09": ["materials", "elements", "long"],
        "C10": ["objects", "libraries", "long"], "C12": ["long", "elements"], "C13": ["lines"],
    }.get(pid, [])
    if S:
        fam("scale", _scales(rng, S, tier))
    fam("huge", huge(pid, rng, tier, "obj"))
    if pid in ("C01", "C06", "C12", "C13"):
        fam("wide words", [t for k_, t in gen.wide_words(rng, (6 if pid == "C01" else 2) * k) if k_ == "obj"])
    if pid in ("C01", "C03", "C04", "C12", "C13"):
        fam("reference shapes", gen.refs_torture(rng, 300 * k))
    if pid in ("C01", "C02", "C03", "C12", "C13"):
        fam("displaced", gen.displaced(rng, 300 * k))
    fam("source words", [t for k_, t in gen.from_source(rng, tier) if k_ == "obj"])
    if pid in ("C01", "C02", "C03", "C12", "C13"):
        fam("one bad reference", gen.one_bad_reference(rng, 500 * k))
    if pid in ("C01", "C12", "C13"):
        fam("inserted", [t for k_, t in gen.inserted(rng, 500 * k) if k_ == "obj"])
    if pid in ("C05", "C06"):
        fam("similar numerals", [t for k_, t in gen.similar_numerals(rng, 150 * k) if k_ == "obj"])
    if pid == "C13":
        fam("late faults", [t for k_, t in gen.late_faults(rng, LATE[tier]) if k_ == "obj"])
    if pid in ("C02", "C03", "C04", "C12", "C13"):
        fam("short sets", gen.short_sets(rng, 500 * k))
    if pid in ("C01", "C04", "C05", "C07", "C08", "C09", "C10", "C12", "C13"):
        fam("surplus", [t for k_, t in gen.surplus(rng, 1 if tier == "quick" else 4) if k_ == "obj"])
    if pid in ("C01", "C07", "C09", "C10", "C12"):
        fam("names", [t for k_, t in gen.name_torture(rng, 1 if tier == "quick" else 6) if k_ == "obj"])
    if pid in ("C01", "C02", "C07", "C08", "C09", "C10", "C12"):
        fam("hollow", gen.hollow(rng, 150 * k))
    if pid == "C01":
        fam("soup", gen.soup(rng, 2500 * k))
        fam("characters", gen.characters(rng, 3000 * k))
        fam("mutated", gen.mutated(rng, 1200 * k))
        fam("faulty", gen.faulty(rng, 300 * k))
        fam("keywords", gen.keywords(rng, 300 * k))
        fam("ints", gen.ints_torture(rng, 300 * k))
        fam("scale", _scales(rng, ["polygon", "vertices", "groups", "objects"], "quick"))
    if pid in ("C02", "C03"):
        fam("faulty", gen.faulty(rng, 600 * k))
        fam("ints", gen.ints_torture(rng, 400 * k))
        fam("negative", gen.structured(rng, 200 * k, negative=1.0, objects=3))
        fam("positive", gen.structured(rng, 150 * k, negative=0.0, objects=3))
    if pid in ("C03", "C05"):
        fam("big", [gen.big(rng, 20000 if tier == "quick" else 66000)])
        fam("assets", _assets({"teapot.obj"} if tier == "quick" else set()))
    if pid == "C04":
        fam("structured+", gen.structured(rng, 500 * k, size=20))
        fam("faulty", gen.faulty(rng, 400 * k))
        fam("ints", gen.ints_torture(rng, 100 * k))
        fam("assets", _assets({"teapot.obj"} if tier == "quick" else set()))
    if pid == "C05":
        fam("structured+", gen.structured(rng, 400 * k, odd=0.8))
        fam("faulty", gen.faulty(rng, 200 * k))
        fam("reals", gen.reals_torture(rng, 300 * k))
    if pid == "C06":
        fam("reals", gen.reals_torture(rng, 5000 * k))
        fam("ints", gen.ints_torture(rng, 1500 * k))
        fam("structured+", gen.structured(rng, 300 * k, odd=1.0))
    if pid in ("C07", "C08", "C09", "C10"):
        fam("structured+", gen.structured(rng, 400 * k, size=20))
        fam("coincidences", gen.coincidences(rng, 800 * k))
        fam("multi_object", gen.multi_object(rng, 200 * k))
    if pid == "C08":
        fam("ints", gen.ints_torture(rng, 100))
    if pid == "C12":
        fam("keywords", gen.keywords(rng, 800 * k))
        fam("mutated", gen.mutated(rng, 1500 * k))
        fam("faulty", gen.faulty(rng, 500 * k))
        fam("soup", gen.soup(rng, 1500 * k))
        fam("ints", gen.ints_torture(rng, 300 * k))
        fam("reals", gen.reals_torture(rng, 500 * k))
        fam("structured+", gen.structured(rng, 300 * k, odd=0.5))
    if pid == "C13":
        fam("mutated", gen.mutated(rng, 2500 * k))
        fam("faulty", gen.faulty(rng, 600 * k))
        fam("keywords", gen.keywords(rng, 200 * k))
        fam("soup", gen.soup(rng, 800 * k))
        fam("ints", gen.ints_torture(rng, 100 * k))
        fam("reals", gen.reals_torture(rng, 100 * k))
    return fams


def _mtl_mutated(rng, n):
    for _ in range(n):
        yield gen.mutate(rng, gen.mtl_file(rng), gen.MTL_VOCABULARY)


def mtl_texts(pid, rng, tier):
    k = 1 if tier == "quick" else 12
    fams = []

    def fam(name, it):
        fams.append((name, list(it)))
    if pid in ("C01", "C13", "C14", "C15"):
        fam("mtl files", (gen.mtl_file(rng) for _ in range((900 if pid == "C14" else 250) * k)))
        fam("mtl mutated", _mtl_mutated(rng, (1800 if pid == "C15" else 700) * k))
        fam("mtl assets", _assets(None, ".mtl"))
        fam("mtl scale", gen.scale(rng, "mtl", tier))
        fam("mtl huge", huge(pid, rng, tier, "mtl"))
        fam("mtl wide words", [t for k_, t in gen.wide_words(rng, (6 if pid == "C01" else 2) * k) if k_ == "mtl"])
    if pid in ("C01", "C15", "C13"):
        fam("mtl keywords", gen.mtl_keywords(rng, 0))
        fam("mtl characters", gen.characters(rng, 600 * k, "newmtlKadsibp 1.\n\r#\\\tNi"))
        fam("mtl surplus", [t for k_, t in gen.surplus(rng, 1 if tier == "quick" else 4) if k_ == "mtl"])
    if pid in ("C01", "C13", "C14", "C15"):
        fam("mtl names", [t for k_, t in gen.name_torture(rng, 1 if tier == "quick" else 6) if k_ == "mtl"])
        fam("mtl inserted", [t for k_, t in gen.inserted(rng, 500 * k) if k_ == "mtl"])
    if pid == "C13":
        fam("mtl late faults", [t for k_, t in gen.late_faults(rng, LATE[tier]) if k_ == "mtl"])
    if pid in ("C06", "C14"):
        fam("mtl similar numerals", [t for k_, t in gen.similar_numerals(rng, 150 * k) if k_ == "mtl"])
    if pid in ("C01", "C06", "C13", "C14", "C15"):
        fam("mtl source words", [t for k_, t in gen.from_source(rng, tier) if k_ == "mtl"])
    if pid in ("C06", "C14", "C15"):
        fam("mtl numbers", gen.mtl_numbers(rng, 600 * k))
    return fams


def view_texts(pid, rng, tier):
    k = 1 if tier == "quick" else 10
    fams = []

    def fam(name, it):
        fams.append((name, list(it)))
    if pid == "C01":
        fam("view", gen.structured(rng, 150 * k))
    if pid in ("C16", "C19"):
        fam("structured", gen.structured(rng, 500 * k))
        fam("odd reals", gen.structured(rng, 300 * k, odd=1.0))
        fam("multi_object", gen.multi_object(rng, 150 * k))
        fam("coincidences", gen.coincidences(rng, 300 * k))
        fam("reals", [t for t in gen.reals_torture(rng, 200 * k)][::2])
        fam("hollow", gen.hollow(rng, 150 * k))
        fam("short sets", gen.short_sets(rng, 200 * k))
        fam("names", [t for k_, t in gen.name_torture(rng, 1) if k_ == "obj"])
        fam("source words", [t for k_, t in gen.from_source(rng, tier) if k_ == "obj" and len(t) < 8000][::2])
        fam("assets", _assets(ASSETS_SMALL))
        fam("long structured", gen.structured(rng, 30 * k, size=80))
        fam("scale", [t for w in ("vertices", "elements", "groups", "smooth", "objects")
                      for t in gen.scale(rng, w, "quick") if len(t) < 16000][::2])
    return fams


def shown_numbers(rng, tier):
    """Texts of numbers that references, elements and smoothing groups are made of."""
    ns = {0, 1, 2, 2 ** 62, 2 ** 63 - 2}
    for b, e in ((10, 19), (2, 63), (3, 39), (36, 12)):
        for k in range(1, e):
            ns |= {b ** k - 2, b ** k - 1, b ** k, b ** k + 1}
    for m in gen.source_literals()[1]:
        ns |= {m - 1, m, m + 1, 2 * m}
    for _ in range(60 if tier == "quick" else 3000):
        ns.add(int(2 ** rng.uniform(0, 62.9)))
        ns.add(rng.randrange(100000))
    ns = sorted(n for n in ns if 0 <= n < 2 ** 63 - 1)
    small, big = ns[:len(ns) // 2], ns[len(ns) // 2:]
    rng.shuffle(small), rng.shuffle(big)
    ns = [x for p in zip(small, big) for x in p] + small[len(big):] + big[len(small):]
    return [" ".join(map(str, ns[i:i + 12])) for i in range(0, len(ns), 12)]


TAILS = ["o z\nv 4 5 6\np -1\n", "o z\nv 4 5 6\nusemtl q\np -1\n", "o z\nv 4 5 6\nvt 1\ng q r\ns 4\nf -1/-1 -1/-1 -1/-1\n",
         "o z\n", "o z\nv 1 2 3\ns 1\np -1\no y\nv 1 2 3\np -1\n", "o a\nvn 1 2 3\nv 1 1 1\nl -1//-1 -1//-1\n"]


def pairs_of(pid, rng, kind, t, n):
    """Pairs around a text found by the search."""
    if pid == "C11":
        for _ in range(n):
            yield "layout", kind, t, gen.relayout(rng, t), None
    if pid == "C18":
        cuts = [i + 1 for i, c in enumerate(t) if c == "\n"]
        for c in cuts if len(cuts) <= 4 * n else sorted(rng.sample(cuts, 4 * n)):
            yield "extend", kind, t[:c], t, None
        if t.endswith("\n"):
            for more in (["v 1 2 3\n", "o z\n", "p -1\n", "\n"] if kind == "obj" else ["d 1\n", "newmtl y\n", "\n"]):
                yield "extend", kind, t, t + more, None
    if pid == "C10" and kind == "obj" and t.endswith("\n"):
        for u in TAILS:
            yield "compose", kind, t, t + u, u


def pair_texts(pid, rng, tier, model):
    """(rel, kind, s, t, u) tuples.  model: [(kind, text)] from TLC's families."""
    k = 1 if tier == "quick" else 10
    out = []
    if pid == "C11":
        bases = [("obj", t) for t in gen.structured(rng, 500 * k, layout=False)]
        bases += [("obj", t) for t in gen.mutated(rng, 500 * k)]
        bases += [("obj", t) for t in gen.faulty(rng, 150 * k)]
        bases += [("obj", t) for t in gen.soup(rng, 300 * k)]
        bases += [("obj", t) for t in gen.coincidences(rng, 200 * k)]
        bases += [("obj", t) for t in gen.characters(rng, 300 * k)]
        bases += [("obj", t) for t in list(gen.keywords(rng, 50 * k))[::4]]
        bases += list(gen.wide_words(rng, 2 * k))
        bases += [x for x in gen.from_source(rng, tier) if len(x[1]) < 4000][::3]
        bases += list(gen.surplus(rng, 1))[::4]
        bases += list(gen.name_torture(rng, 1))[::2]
        bases += [("mtl", gen.mtl_file(rng)) for _ in range(300 * k)]
        bases += [("mtl", t) for t in _mtl_mutated(rng, 400 * k)]
        bases += [("obj", t) for t in _assets(ASSETS_SMALL)]
        bases += [("mtl", t) for t in _assets(None, ".mtl")]
        m = list(model)
        rng.shuffle(m)
        bases += m[:3000 * k]
        for kind, t in bases:
            for _ in range(2):
                out.append(("layout", kind, t, gen.relayout(rng, t), None))
        out += gen.huge_layout(rng, [5000, 65536 + 40] if tier == "quick" else [1030, 4100, 8200, 16390, 33000, 65576, 131112])
    if pid == "C18":
        bases = [("obj", t) for t in gen.structured(rng, 200 * k, size=10)]
        bases += [("obj", t) for t in gen.multi_object(rng, 60 * k)]
        bases += [("obj", t) for t in gen.displaced(rng, 300 * k)]
        bases += [("obj", t) for t in gen.displaced(rng, 200 * k, negative=0.0, objects=1)]
        bases += [("obj", t) for t in gen.coincidences(rng, 250 * k)]
        bases += [("obj", t) for t in gen.mutated(rng, 300 * k)]
        bases += [("obj", t) for t in gen.faulty(rng, 100 * k)]
        bases += [("obj", t) for t in gen.hollow(rng, 80 * k)]
        bases += list(gen.inserted(rng, 200 * k))
        bases += [("obj", t) for t in gen.one_bad_reference(rng, 100 * k)]
        bases += [("obj", t) for t in gen.short_sets(rng, 80 * k)]
        bases += [x for x in gen.from_source(rng, tier) if len(x[1]) < 3000][::6]
        bases += [("mtl", gen.mtl_file(rng)) for _ in range(100 * k)]
        bases += [("mtl", t) for t in _mtl_mutated(rng, 200 * k)]
        for w in gen.UNSUPPORTED + gen.OBJ_KEYWORDS + ["#", "p 1 x", "f 4 5", "v 1 2", "s x", "end 1", "p 9"]:
            for pre in (gen.FULL_OBJ, "v 1 2 3\n", ""):
                for post in ("v 1 2 3\n", "o z\n", "p -1\n", "\n"):
                    out.append(("extend", "obj", pre + w + "\n", pre + w + "\n" + post, None))
        for w in gen.MTL_UNSUPPORTED + gen.MTL_FIELDS + ["newmtl", "Tr 1", "Tf 1 1 1", "illum 5", "#"]:
            for pre in (gen.FULL_MTL, "newmtl a\n", ""):
                for post in ("d 1\n", "newmtl y\n", "\n"):
                    out.append(("extend", "mtl", pre + w + "\n", pre + w + "\n" + post, None))
        m = list(model)
        rng.shuffle(m)
        bases += m[:3000 * k]
        for kind, t in bases:
            cuts = [i + 1 for i, c in enumerate(t) if c == "\n"]
            if len(cuts) > 6:
                cuts = sorted(rng.sample(cuts, 6))
            for c in cuts:
                out.append(("extend", kind, t[:c], t, None))
    if pid == "C10":
        for _ in range(600 * k):
            s = gen.ObjFile(rng, size=rng.choice([3, 8, 14]), layout=False).text()
            if chance2(rng, 0.3):
                s = "".join(gen.coincidences(rng, 1))
            u = gen.ObjFile(rng, size=rng.choice([2, 6, 12]), layout=False, named=True, libs=False, negative=1.0).text()
            out.append(("compose", "obj", s, s + u, u))
        heads = [t for kind, t in model if kind == "obj" and t.endswith("\n")]
        rng.shuffle(heads)
        for s in heads[:4000 * k]:
            u = gen.pick(rng, TAILS)
            out.append(("compose", "obj", s, s + u, u))
    return out


def chance2(rng, p):
    return rng.random() < p


# seconds of the search for further texts (seeker/), and which answers it
# compares: of which reader, and whether of the views as well
# storms of calls: (how many, texts, milliseconds), in both profiles
STORMS = {"quick": [(4, 3, 150), (8, 12, 150), (8, 60, 150), (2, 300, 500)],
          "thorough": [(40, 3, 200), (10, 3, 5000), (60, 12, 200), (10, 12, 5000), (60, 60, 200), (5, 60, 10000), (20, 300, 3000)]}
SEEK = {"quick": 12, "thorough": 600}
SEEK_KIND = {"C01": "both", "C06": "both", "C11": "both", "C13": "both", "C17": "both", "C18": "both", "C20": "both", "C14": "mtl", "C15": "mtl"}
SEEK_VIEWS = {"C20": (2,), "C16": (1,), "C19": (1,), "C01": (0, 0, 1, 1)}
NOVEL = {"quick": 500, "thorough": 6000}
CHANGED = {"quick": 400, "thorough": 3000}


def seek_frames(rng, start):
    """What the search starts from: texts [(kind, text)] and the words and
    numbers the source mentions."""
    short = [x for x in start if len(x[1]) <= 1200]
    for x in rng.sample(short, min(1000, len(short))):
        yield x
    words, numbers = gen.source_literals()
    new, newn = gen.fresh_literals()
    for w in words:
        yield "word", w
    for n in numbers:
        yield "word", str(n)
    for w in new:
        yield "fresh", w
    for n in newn:
        yield "fresh", str(n)
        yield "size", str(min(n, 10 ** 9))


def call_texts(rng, tier, model):
    """Texts for call histories: (kind, text), similar ones next to each other."""
    k = 1 if tier == "quick" else 8
    ts = [("obj", t) for t in gen.structured(rng, 100 * k)]
    ts += [("obj", t) for t in gen.multi_object(rng, 30 * k)]
    ts += [("obj", t) for t in gen.coincidences(rng, 100 * k)]
    ts += [("obj", t) for t in gen.mutated(rng, 120 * k)]
    ts += [("obj", t) for t in list(gen.ints_torture(rng, 20 * k))[::9]]
    ts += [("obj", t) for t in list(gen.reals_torture(rng, 20 * k))[::9]]
    ts += [("mtl", gen.mtl_file(rng)) for _ in range(80 * k)]
    ts += [("mtl", t) for t in _mtl_mutated(rng, 80 * k)]
    ts += [("obj", t) for t in _assets(ASSETS_SMALL)]
    ts += [("obj", gen.huge(rng, w, 2000)) for w in ("vertices", "elements", "groups", "lines", "corners", "word")]
    ts += [("mtl", gen.huge(rng, w, 2000)) for w in ("mtl materials", "mtl statements")]
    ts += [x for x in gen.from_source(rng, tier) if len(x[1]) < 8000][::8]
    ts += list(gen.name_torture(rng, 1))[::8]
    ts += list(gen.similar_numerals(rng, 40 * k))
    m = list(model)
    rng.shuffle(m)
    ts += m[:400 * k]
    # Texts that agree in length, in their characters or in long stretches, so
    # that nothing short of the whole text tells them apart.
    out = []
    for kind, t in ts:
        out.append((kind, t))
        if chance2(rng, 0.3):
            out += [(kind, u) for u in gen.siblings(rng, t, 3)]
    for size in (3, 8, 30, 120):
        for _ in range(12 * k):
            base = gen.ObjFile(rng, size=size, layout=False, odd=0).text()
            out += [("obj", base)] + [("obj", u) for u in gen.siblings(rng, base, 4)]
    return out


def made_texts(pid, rng, tier):
    """Texts whose objects others are made from through their fields."""
    k = 1 if tier == "quick" else 10
    if pid not in ("C16", "C19"):
        return []
    return [("made", list(gen.structured(rng, 40 * k)) + list(gen.structured(rng, 15 * k, odd=1.0)) + list(gen.multi_object(rng, 15 * k)) +
             list(gen.short_sets(rng, 15 * k)) + [t for k_, t in gen.name_torture(rng, 1) if k_ == "obj"][::4] + [""])]


def eq_texts(rng, tier, model):
    """(kind, s, t): pairs that are the same, nearly the same, or not."""
    k = 1 if tier == "quick" else 10
    bases = [("obj", t) for t in gen.structured(rng, 150 * k, size=8)]
    bases += [("obj", t) for t in gen.structured(rng, 60 * k, odd=1.0, size=6)]
    bases += [("obj", t) for t in gen.multi_object(rng, 60 * k)]
    bases += [("obj", t) for t in gen.coincidences(rng, 100 * k)]
    bases += [("obj", t) for t in gen.structured(rng, 6 * k, size=90)]
    bases += [("obj", t) for t in gen.faulty(rng, 80 * k)]
    bases += [("obj", t) for t in gen.mutated(rng, 60 * k)]
    bases += [("mtl", gen.mtl_file(rng)) for _ in range(200 * k)]
    bases += [("mtl", t) for t in _mtl_mutated(rng, 60 * k)]
    bases += [("obj", t) for t in _assets(ASSETS_SMALL)] + [("mtl", t) for t in _assets(None, ".mtl")]
    bases += [x for x in gen.from_source(rng, tier) if len(x[1]) < 3000][::8]
    m = list(model)
    rng.shuffle(m)
    bases += m[:300 * k]
    out = []
    for i, (kind, t) in enumerate(bases):
        out.append((kind, t, t))
        out.append((kind, t, gen.relayout(rng, t)))
        for _ in range(4):
            u = gen.variant(rng, kind, t)
            out.append((kind, t, u))
            if chance2(rng, 0.3):
                out.append((kind, u, gen.variant(rng, kind, u)))
        for u in gen.siblings(rng, t, 1):
            out.append((kind, t, u))
        if chance2(rng, 0.1):
            out += [(kind, t, "\n" + t), (kind, t, "")]
        if chance2(rng, 0.2) and bases[i - 1][0] == kind:
            out.append((kind, t, bases[i - 1][1]))
    # the errors of faulty texts, against each other
    bad = [t for t in gen.faulty(rng, 60 * k)] + [t for t in gen.keywords(rng, 20 * k)][:120 * k]
    out += [("obj", a, b) for a, b in zip(bad, bad[1:])]
    bad = [t for t in _mtl_mutated(rng, 80 * k)]
    out += [("mtl", a, b) for a, b in zip(bad, bad[1:])]
    return out


def alter_texts(rng, tier):
    """Texts whose results' parts are altered in one place."""
    k = 1 if tier == "quick" else 10
    out = [("obj", t) for t in gen.structured(rng, 40 * k, size=6)]
    out += [("obj", t) for t in gen.structured(rng, 10 * k, size=4, odd=1.0)]
    out += [("obj", t) for t in gen.structured(rng, 2 * k, size=90)]
    out += [("obj", t) for t in gen.coincidences(rng, 30 * k)]
    out += [("mtl", gen.mtl_file(rng)) for _ in range(15 * k)]
    names = ["a", "b", "c", "default", "Wood", "a.001", "x", "y", "z", "long_name_of_a_group"]
    for n in (4, 5, 9, 17, 33, 70):
        gs = [some if i < len(names) else "%s%d" % (some, i) for i in range(n) for some in [names[i % len(names)]]]
        out.append(("obj", "o n\n" + "".join("v %d 0.1 %d\n" % (i, i) for i in range(n)) + "g " + " ".join(gs) + "\n" +
                    "".join("p %d\n" % (i + 1) for i in range(n)) + "g " + " ".join(reversed(gs)) + "\ns 3\nusemtl m\n" +
                    "".join("l %d %d\n" % (i + 1, i) for i in range(1, n))))
    return out


def rng_for(pid, seed):
    return random.Random("%s/%d" % (pid, seed))
