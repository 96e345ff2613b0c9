"""Which properties a disagreement breaks.

The trace specifications name each disagreement between library and
specification by its aspect.  An aspect usually belongs to one property.  Where
the library accepts or rejects a whole text wrongly, the kind of error and the
statement at fault say which guarantees are concerned besides C12 or C15."""
import re

OBJ = {
    "crash": {"C01"},
    "dangling": {"C02"},
    "elem-index": {"C03"},
    "elem-order": {"C04"}, "elem-missing": {"C04"}, "elem-kind": {"C04"}, "elem-form": {"C04"}, "elem-count": {"C04"},
    "shape-missing": {"C04", "C07", "C08"}, "shape-element": {"C04", "C07", "C08"}, "shape-count": {"C04", "C07", "C08"},
    "coord-v": {"C05"}, "coord-vt": {"C05"}, "coord-vn": {"C05"},
    "value-v": {"C05"}, "value-vt": {"C05"}, "value-vn": {"C05"},
    "group-set": {"C07"}, "shape-group": {"C07"},
    "smooth-set": {"C08"}, "shape-smooth": {"C08"},
    "geometry": {"C09"},
    "name": {"C10"}, "lib": {"C10"}, "object-missing": {"C10"}, "object-count": {"C10"},
    "err-line": {"C13"}, "err-kind": {"C13"}, "err-text": {"C13"},
}

KIND = {
    "VTNIndexOutOfRange": {"C02", "C03"},
    "EveryFaceElementMustHaveAtLeastThreeVertices": {"C04"},
    "EveryVTNIndexMustHaveTheSameFormForAGivenElement": {"C04"},
    "ExpectedFloat": {"C05", "C06"},
    "ExpectedInteger": {"C03", "C04", "C06"},
    "ExpectedVTNIndex": {"C03", "C04"},
    "SmoothingGroupDeclarationHasNoName": {"C08"},
    "SmoothingGroupNameMustBeOffOrInteger": {"C08", "C06"},
    "MaterialStatementHasNoName": {"C09"},
}

KEYWORD = {"v": {"C05"}, "vt": {"C05"}, "vn": {"C05"}, "p": {"C04"}, "l": {"C04"}, "f": {"C04"},
           "g": {"C07"}, "s": {"C08"}, "usemtl": {"C09"}, "o": {"C10"}, "mtllib": {"C10"}}

_EOL = re.compile(r"\r\n|\r|\n")


def words_on(text, line):
    lines = _EOL.split(text)
    if not 1 <= line <= len(lines):
        return []
    return [w for w in re.split(r"[ \t\\]+", lines[line - 1].split("#", 1)[0]) if w]


def statement(text, line):
    """The properties of the statements on a line."""
    ws = words_on(text, line)
    own = set()
    for w in ws[:1]:
        own |= KEYWORD.get(w, set())
    return own


def features(text):
    own = set()
    for n in range(1, len(_EOL.split(text)) + 1):
        own |= statement(text, n)
    return own


def obj(aspects, text, answer, line, fault):
    own = set()
    for a in aspects:
        own |= OBJ.get(a, set())
        if a == "rejected":
            own.add("C12")
            if answer.get("st") == "err":
                own |= KIND.get(answer["kind"], set()) | statement(text, answer["line"])
            elif text.count("\n") < 8:
                own |= features(text)
        elif a.startswith("accepted-"):
            own |= {"C12"} | KIND.get(a[9:], set()) | statement(text, line)
    if any(a.startswith("value-") for a in aspects) and not any(a.startswith("coord-") for a in aspects):
        own.add("C06")
    return own


NUMERIC = {"mat-" + f for f in ("Ka", "Kd", "Ks", "Ke", "Ns", "d", "Ni", "illum")}


def mtl(aspects, text, answer, line, fault):
    own = set()
    for a in aspects:
        if a == "crash":
            own.add("C01")
        elif a.startswith("mat-"):
            own.add("C14")
        elif a.startswith("err-"):
            own.add("C13")
        elif a == "rejected":
            own |= {"C14", "C15"}
            if answer.get("kind") in ("ExpectedFloat", "ExpectedInteger"):
                own.add("C06")
        elif a.startswith("accepted-"):
            own.add("C15")
            if a[9:] in ("ExpectedFloat", "ExpectedInteger"):
                own.add("C06")
    if len(aspects) == 1 and aspects <= NUMERIC:
        own.add("C06")
    return own


VIEW = {"lookup": {"C19"}, "same-form": {"C19"}, "again": {"C17"}, "crash": {"C01", "C16", "C19"}}


def view(aspects):
    own = set()
    for a in aspects:
        own |= {"C16"} if a.startswith("display-") else VIEW.get(a, set())
    return own


PAIR = {"layout": {"C11"}, "layout-kind": {"C11"}, "layout-line": {"C11"}, "extend": {"C18"}, "error-final": {"C18"},
        "error-early": {"C18"}, "compose": {"C10"}, "crash": {"C01"}}


def pair(aspects):
    own = set()
    for a in aspects:
        own |= PAIR.get(a, set())
    return own


def equality(aspects):
    return {"C01", "C20"} if "crash" in aspects else {"C20"}
