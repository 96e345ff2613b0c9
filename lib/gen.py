"""Texts that bind the specification to the code beyond TLC's bounded families.

Everything here only makes inputs.  What the right answer to an input is, is
decided by the TLA+ trace specifications; a generator may produce anything.
Every random choice comes from the seeded generator passed in.
"""
import math, os, re

REPO = "/repo"
BASELINE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeker", "baseline", "src")

PLAIN_REALS = ["0", "1", "2", "3", "-1", "0.5", "-0.25", "1.5", "10", "0.1", "0.2", "0.3", "-7.125"]
REALS = PLAIN_REALS + [
    "+1", "+0.5", ".5", "-.5", "+.5", "5.", "-5.", "1e3", "1E3", "1e+3", "1e-3", "-1.5e-7", ".5e2", "5.e2",
    "-0", "0.0", "-0.0", "00", "007", "1e0", "0e5", "1e22", "1e23", "123456789", "16777217", "9007199254740993",
    "4294967296", "2147483648", "-2147483649", "1e308", "1e309", "-1e400", "1e-308", "1e-320", "4.9e-324",
    "2e-324", "1e-400", "1.7976931348623157e308", "1.7976931348623159e308", "2.2250738585072011e-308",
    "0.1000000000000000055511151231257827", "3.14159265358979323846264338327950288",
    "0.30000000000000004", "33554433", "16777216.5", "0.333333333333333314829616256247390992939472198486328125",
    "1e0000000001", "0.00000000000000000000000000000000000001", "100000000000000000000000000000000000000000",
    "inf", "-inf", "+inf", "Inf", "INF", "infinity", "-Infinity", "INFINITY", "nan", "NaN", "NAN", "-nan", "+NaN",
]
NOT_REALS = ["", "x", "e", ".", "-", "+", "e5", "1e", "1e+", "1.2.3", "--1", "+-1", "1-", "0x10", "1_000", "1,5",
             "1f", "1.0f", "1d5", "infin", "nanx", "i", "١", "1e5.5", "1e 5", "-e1", "1/2", "½", "1e1e1", "−1",
             ".e1", "1'000", "1.0e", "NaN()", "∞", "0b1", "1u", "/", "1;"]
INTS = ["1", "2", "3", "-1", "-2", "+1", "+2", "01", "002", "-01", "0", "-0", "+0", "00", "4", "-3", "-4", "5", "-5"]
ODD_INTS = ["", "+", "-", "1.0", "1e0", "x", "--1", "9223372036854775807", "9223372036854775808",
            "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616",
            "4294967295", "4294967296", "4294967297", "2147483647", "2147483648", "-2147483648", "-4294967295",
            "99999999999999999999999", "1_0", "0x1", "１", "1a", "a1", "+-1", "1-", "65536", "65537", "256", "257",
            "-65536", "-256", "-257", "0000000000000000000000000000000000001", "18446744073709551617",
            "-18446744073709551615"]
NAMES = ["a", "b", "c", "A", "default", "off", "0", "1", "on", "none", "null", "cube", "a.b", "x-y", "x_y", "é",
         "日本", "o", "v", "vt", "vn", "f", "l", "p", "g", "s", "usemtl", "mtllib", "newmtl", "1/2", "//", "-1", "(a)",
         "a,b", "\"q\"", "'", "{x}", "a:b", "wood.mtl", "Ka", "🙂", "Ünï", "a\u00a0b", "\u200b", "default1",
         "aa", "ab", "ba", "true", "NaN", "inf", "1.5", "*", "%s", "%d", "\u0085", "\x0b", "\x0c", "$", "&amp;",
         "\ufeff", "a=b", "@", "!", "?", "~", "^", "|", ";", "`", "[0]", "c:/x", "../y", "\x00", "\x1b", "\x7f", "nameless"]
COMMENT = ["#", "# c", "#c", "# v 1 2 3", "## #", "#\t", "# o x", "#\\", "# é日🙂", "#" * 9, "# f 1 2 3 4", "#g", "# \"",
           "# newmtl z", "# usemtl q", "# mtllib q", "# 1", "# the rest of the line"]
OBJ_KEYWORDS = ["v", "vt", "vn", "p", "l", "f", "g", "s", "o", "usemtl", "mtllib"]
UNSUPPORTED = ["vp 1 2", "curv 0 1 1 2", "surf 0 1 0 1 1", "cstype bezier", "deg 3", "bmat u 1", "step 1", "parm u 0 1",
               "end", "mg 1", "bevel on", "c_interp on", "lod 1", "shadow_obj x", "trace_obj x", "call a.obj",
               "fo 1 2 3", "V 1 2 3", "VT 1", "F 1 2 3", "O a", "G a", "S 1", "usemap x", "mtl a", "vx 1", "x", "1 2 3",
               "fa 1 2 3", "on", "off", "USEMTL a", "Usemtl a", "UseMtl x", "vv 1 2 3", "sg 1", "grp a", "obj a", "-", "/",
               "newmtl a", "Kd 1 1 1", "MTLLIB a", "Mtllib a", "P 1", "L 1 1", "Vn 1 2 3", "vN 1 2 3", "vertex 1 2 3",
               "usemtll a", "usemt a", "mtllibs a", "maplib a", "con 1 2", "trim 0 1 1", "hole 0 1 1", "scrv 0 1 1",
               "sp 1", "ctech cparm 1", "stech cparma 1 1", "d_interp on", "csh ls", "f1 2 3", "v1 2 3", "pp 1", "ll 1 1"]


def pick(rng, xs):
    return xs[rng.randrange(len(xs))]


def chance(rng, p):
    return rng.random() < p


def shaped_name(rng):
    """Names as programs make them: words, separators, counters, suffixes."""
    out = ""
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        k = rng.randrange(8)
        if k < 3:
            out += pick(rng, ["a", "Cube", "mesh", "MESH", "wood", "lod", "x", "M", "default", "Material", "obj", "group", "é", "node", "none"])
        elif k < 5:
            out += pick(rng, [".", "_", "-", ":", "/", ",", "|", "__", "..", "@", "=", "~", "+", "'", "$"])
        elif k < 7:
            out += pick(rng, ["0", "1", "2", "001", "01", "10", "002", "000", "9", "123", "0001", "42"])
        else:
            out += pick(rng, [".mtl", ".png", ".obj", ".jpg", "(1)", "[0]", "{1}", "%", "&", "*", "\"", "<b>", ".tga", "_off", "\u00a0", "🙂", "日本"])
    return out


def some_name(rng, odd=0.25):
    if chance(rng, odd):
        if chance(rng, 0.15):
            return "".join(pick(rng, "abcdefgh_0123.-") for _ in range(rng.randrange(8, 90)))
        if chance(rng, 0.4):
            return shaped_name(rng)
        return pick(rng, NAMES)
    return pick(rng, ["a", "b", "c", "d", "default", "wood", "stone"])


def real(rng, odd):
    r = rng.random()
    if r < odd * 0.5:
        return pick(rng, REALS)
    if r < odd:
        k = rng.randrange(5)
        if k == 0:
            return repr(rng.uniform(-1, 1) * 10.0 ** rng.randrange(-30, 30))
        if k == 1:
            return "%d.%d" % (rng.randrange(-99, 99), rng.randrange(10 ** rng.randrange(1, 18)))
        if k == 2:
            return "%.*f" % (rng.randrange(0, 25), rng.uniform(-1000, 1000))
        if k == 3:
            return "%.*e" % (rng.randrange(0, 20), rng.uniform(-10, 10) * 10.0 ** rng.randrange(-300, 300))
        return str(rng.randrange(-10 ** rng.randrange(1, 22), 10 ** rng.randrange(1, 22)))
    if r < 0.6:
        return pick(rng, PLAIN_REALS)          # repeated values on purpose
    return "%.*f" % (rng.randrange(1, 7), rng.uniform(-100, 100))


# ------------------------------------------------------------- structured OBJ

class ObjFile:
    """A random OBJ file that is mostly well formed.  err is the chance that a
    statement gets something wrong in it."""

    def __init__(self, rng, size=12, objects=None, err=0.0, odd=0.15, negative=None, layout=True,
                 named=None, libs=True):
        self.rng, self.err, self.odd = rng, err, odd
        self.total = dict(v=0, vt=0, vn=0)
        self.base = dict(v=0, vt=0, vn=0)
        self.lines = []
        self.negative = rng.choice([0.0, 0.3, 0.6, 1.0]) if negative is None else negative
        self.form = rng.choice(["v", "vt", "vn", "vtn", None, None])
        self.layout = layout
        self.weights = dict(v=rng.choice([1, 3]), vt=rng.choice([0, 1, 2]), vn=rng.choice([0, 1, 2]),
                            p=rng.choice([0, 1, 2]), l=rng.choice([0, 1, 2]), f=rng.choice([0, 2, 4]),
                            g=rng.choice([0, 1, 2]), s=rng.choice([0, 1, 2]), usemtl=rng.choice([0, 1, 2]))
        n = objects if objects is not None else rng.choice([1, 1, 2, 2, 3, 4])
        if libs and chance(rng, 0.3):
            for _ in range(rng.randrange(1, 4)):
                self.put("mtllib", [some_name(rng) + ".mtl" for _ in range(rng.randrange(0, 4))])
        for k in range(n):
            if k > 0 or (chance(rng, 0.6) if named is None else named):
                self.put("o", [some_name(rng)])
            self.base = dict(self.total)
            self.body(max(0, int(rng.gauss(size, size / 2))))

    def put(self, kw, words):
        self.lines.append([kw] + words)

    def body(self, n):
        rng = self.rng
        if chance(rng, 0.8):
            for _ in range(rng.randrange(1, 5)):
                self.vertex("v")
            if chance(rng, 0.5):
                for _ in range(rng.randrange(1, 4)):
                    self.vertex("vt")
            if chance(rng, 0.5):
                for _ in range(rng.randrange(1, 4)):
                    self.vertex("vn")
        kinds = [k for k in self.weights for _ in range(self.weights[k])]
        for _ in range(n):
            k = pick(rng, kinds)
            if k in ("v", "vt", "vn"):
                self.vertex(k)
            elif k == "g":
                self.put("g", [some_name(rng) for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3, 5]))])
            elif k == "s":
                w = rng.choice(["off", "0", "1", "2", "3", "1", str(rng.randrange(100))])
                if chance(rng, self.odd):
                    w = pick(rng, ["+1", "007", "18446744073709551615", "4294967296", "00", "2147483648", "255", "256", "65536"])
                self.put("s", [w])
            elif k == "usemtl":
                self.put("usemtl", [some_name(rng)])
            else:
                self.element(k)

    def vertex(self, k):
        rng = self.rng
        n = {"v": rng.choice([3, 3, 3, 4]), "vt": rng.choice([1, 2, 2, 3]), "vn": 3}[k]
        self.put(k, [real(rng, self.odd) for _ in range(n)])
        self.total[k] += 1

    def have(self, k):
        return self.total[k] - self.base[k]

    def ref(self, k):
        rng = self.rng
        n = self.have(k)
        if chance(rng, self.err * 0.3):
            i = rng.choice([-1, n, n + 1, -self.base[k], rng.randrange(-3, n + 4)])
        elif chance(rng, 0.25):
            i = rng.choice([0, n - 1])
        else:
            i = rng.randrange(n) if n else 0
        if chance(rng, self.negative):
            w = i - n
            return str(w) if not chance(rng, self.odd * 0.2) else "-0%d" % -w
        w = self.base[k] + i + 1
        return str(w) if not chance(rng, self.odd * 0.2) else pick(rng, ["+%d", "0%d", "00%d"]) % w

    def refs(self, n, form):
        rng = self.rng
        out = []
        for _ in range(n):
            if out and chance(rng, 0.08):
                out.append(pick(rng, out))
                continue
            f = form
            if chance(rng, self.err * 0.1):
                f = rng.choice(["v", "vt", "vn", "vtn"])
            a = self.ref("v")
            if f == "v":
                out.append(a)
            elif f == "vt":
                out.append(a + "/" + self.ref("vt"))
            elif f == "vn":
                out.append(a + "//" + self.ref("vn"))
            else:
                out.append(a + "/" + self.ref("vt") + "/" + self.ref("vn"))
        return out

    def element(self, k):
        rng = self.rng
        if not self.have("v") and not chance(rng, self.err):
            self.vertex("v")
        forms = ["v"] + (["vt"] if self.have("vt") else []) + (["vn"] if self.have("vn") else []) + \
                (["vtn"] if self.have("vt") and self.have("vn") else [])
        form = self.form if self.form in forms else pick(rng, forms)
        if k == "p":
            self.put("p", self.refs(rng.choice([1, 1, 2, 3, 5, 9]), "v"))
        elif k == "l":
            n = rng.choice([2, 2, 3, 4, 6, 10])
            self.put("l", self.refs(1 if chance(rng, self.err * 0.1) else n, form))
        else:
            n = rng.choice([3, 3, 3, 4, 4, 5, 6, 7, 8, 9, 12, 17])
            self.put("f", self.refs(rng.randrange(0, 3) if chance(rng, self.err * 0.1) else n, form))

    def text(self):
        return layout(self.rng, self.lines, plain=not self.layout)


# -------------------------------------------------------------------- layout

def blanks(rng, fancy):
    if not fancy or chance(rng, 0.7):
        return " "
    return pick(rng, ["  ", "\t", "\\", " \t ", "   ", "\\ ", " \\", "\t\t", " " * 17, "\\\\"])


def layout(rng, lines, plain=False, end=None):
    """Write statements (lists of words) as text."""
    fancy = not plain and chance(rng, 0.5)
    eol = pick(rng, ["\n"]) if plain else rng.choice(["\n", "\n", "\n", "\r\n", "\r", None])
    out = []
    for words in lines:
        if fancy and chance(rng, 0.12):
            out.append(pick(rng, ["", "", " ", "\t", pick(rng, COMMENT), "  " + pick(rng, COMMENT)]) + _eol(rng, eol))
        s = (blanks(rng, True) if fancy and chance(rng, 0.1) else "") + words[0]
        for w in words[1:]:
            s += blanks(rng, fancy) + w
        if fancy and chance(rng, 0.1):
            s += pick(rng, ["", " ", "\t"]) + pick(rng, COMMENT)
        elif fancy and chance(rng, 0.1):
            s += blanks(rng, True)
        out.append(s + _eol(rng, eol))
    text = "".join(out)
    if end is None:
        end = "" if plain else rng.choice(["", "", "", "\n", "cut", "  ", "# end"])
    if end == "cut":
        text = text.rstrip("\r\n")
    else:
        text += end
    return text


def _eol(rng, eol):
    return eol if eol is not None else pick(rng, ["\n", "\r\n", "\r"])


def tokens(text):
    """Lines of words, as the reader's lexer has them (only used to re-lay-out)."""
    out = []
    for ln in re.split(r"\r\n|\r|\n", text):
        ln = ln.split("#", 1)[0]
        ws = [w for w in re.split(r"[ \t\\]+", ln) if w]
        out.append(ws)
    return out


def relayout(rng, text):
    """The same statements on the same lines, laid out otherwise."""
    lines = [ws for ws in tokens(text) if ws]
    ends = bool(re.search(r"[\r\n][ \t\\]*(#[^\r\n]*)?\Z", text)) if lines else False
    fancy = chance(rng, 0.8)
    eol = rng.choice(["\n", "\r\n", "\r", None])
    out = []

    def filler():
        while fancy and chance(rng, 0.15):
            out.append(pick(rng, ["", " ", "\t", "\\", pick(rng, COMMENT), "  " + pick(rng, COMMENT)]) + _eol(rng, eol))
    for i, ws in enumerate(lines):
        filler()
        s = (blanks(rng, True) if fancy and chance(rng, 0.2) else "") + ws[0]
        for w in ws[1:]:
            s += blanks(rng, fancy) + w
        if fancy and chance(rng, 0.15):
            s += pick(rng, ["", " ", "\t"]) + pick(rng, COMMENT)
        elif fancy and chance(rng, 0.15):
            s += blanks(rng, True)
        last = i == len(lines) - 1
        out.append(s + (_eol(rng, eol) if not last or ends else ""))
    if ends:
        filler()
        if chance(rng, 0.2):
            out.append(pick(rng, [" ", "\t\t", "# end", "\\"]))
    if not lines:
        filler()
    t = "".join(out)
    return t


# ------------------------------------------------------------------ mutation

def mutate(rng, text, vocabulary, n=None):
    """A few edits of the words and lines of a text."""
    for _ in range(n or rng.choice([1, 1, 1, 2, 3])):
        parts = re.split(r"(\s+)", text)
        words = [i for i, w in enumerate(parts) if w and not w.isspace()]
        k = rng.randrange(14)
        if not words or k == 0:
            i = rng.randrange(len(text) + 1)
            text = text[:i] + pick(rng, vocabulary) + text[i:]
        elif k == 1:
            parts[pick(rng, words)] = ""
            text = "".join(parts)
        elif k in (2, 3, 4):
            parts[pick(rng, words)] = pick(rng, vocabulary)
            text = "".join(parts)
        elif k == 5:
            i = pick(rng, words)
            parts[i] = parts[i] + " " + parts[i]
            text = "".join(parts)
        elif k == 6:
            i, j = pick(rng, words), pick(rng, words)
            parts[i], parts[j] = parts[j], parts[i]
            text = "".join(parts)
        elif k == 7:
            text = text[:rng.randrange(len(text) + 1)]
        elif k == 8:
            lines = text.split("\n")
            i, j = rng.randrange(len(lines)), rng.randrange(len(lines))
            lines[i], lines[j] = lines[j], lines[i]
            text = "\n".join(lines)
        elif k == 9:
            lines = text.split("\n")
            del lines[rng.randrange(len(lines))]
            text = "\n".join(lines)
        elif k == 10:
            i = pick(rng, words)
            parts[i] += pick(rng, ["\n", " ", "#", "\r", "/", "0", "-", ".", "é"])
            text = "".join(parts)
        elif k == 11:
            gaps = [i for i, w in enumerate(parts) if w and w.isspace()]
            if gaps:
                parts[pick(rng, gaps)] = pick(rng, ["", "\n", " ", "\r", "\t", "\\\n", " # ", "\x0b", "\u00a0", "\u2028"])
                text = "".join(parts)
        elif k == 12:
            lines = text.split("\n")
            i = rng.randrange(len(lines))
            lines.insert(rng.randrange(len(lines) + 1), lines[i])
            text = "\n".join(lines)
        else:
            i = rng.randrange(len(text)) if text else 0
            text = text[:i] + pick(rng, "abvfgslop/#-+.e019 \n\r\t\\é") + text[i + 1:]
    return text


OBJ_VOCABULARY = OBJ_KEYWORDS * 3 + INTS * 2 + ["1/1", "1//1", "1/1/1", "-1/-1", "-1//-1", "1/", "1//", "1/1/", "/1",
                                                "//1", "1/1/1/1", "1///1", "1/2//3", "off", "1.5", "\n", "# c", "a"] \
    + NOT_REALS[1:] + ODD_INTS[1:12] + ["default", "vp", "", "v 1 2 3\n", "o q\n", "g\n", "f 1 1 1\n", "usemtl m\n"]

MTL_FIELDS = ["Ka", "Kd", "Ks", "Ke", "Ns", "d", "Ni", "illum", "map_Ka", "map_Kd", "map_Ks", "map_Ke", "map_Ns",
              "bump", "map_Bump", "disp", "map_d", "decal"]
MTL_UNSUPPORTED = ["Tf", "Tr", "sharpness", "map_bump", "map_disp", "refl", "map_Ni", "ka", "KA", "NS", "D", "ni", "NI", "Illum",
                   "ILLUM", "map_ka", "map_KA", "Bump", "BUMP", "map_", "map", "Disp", "Decal", "Map_Kd", "map_decal", "map_D",
                   "Pr", "Pm", "norm", "map_Pr", "map_Tr", "aniso", "NEWMTL", "Newmtl", "K", "Ka1", "dd", "newmtll",
                   "usemtl", "mtllib", "o", "v", "-"]
MTL_VOCABULARY = ["newmtl"] * 4 + MTL_FIELDS * 2 + MTL_UNSUPPORTED[:12] + REALS[:25] + NOT_REALS[1:20] + \
    ["0", "1", "2", "3", "10", "-1", "a", "b", "\n", "#", "", "newmtl q\n", "Ka 1 2 3\n", "d .5\n", "illum 1\n"]


def mtl_file(rng, materials=None, err=0.0, odd=0.15, lay=True):
    lines = []
    n = materials if materials is not None else rng.choice([0, 1, 1, 2, 3, 4, 6])
    for _ in range(n):
        lines.append(["newmtl", some_name(rng)])
        for _ in range(rng.choice([0, 1, 2, 4, 8, 14, 25])):
            f = pick(rng, MTL_FIELDS)
            if f[0] == "K":
                lines.append([f] + [real(rng, odd) for _ in range(3)])
            elif f in ("Ns", "d", "Ni"):
                lines.append([f, real(rng, odd)])
            elif f == "illum":
                lines.append([f, rng.choice(["0", "1", "2", "2", "+1", "00", "01"])])
            else:
                lines.append([f, some_name(rng) + pick(rng, ["", ".png", ".mps"])])
            if chance(rng, err):
                lines[-1] = mutate(rng, " ".join(lines[-1]), MTL_VOCABULARY, 1).split(" ")
    return layout(rng, lines, plain=not lay)


# ------------------------------------------------------------------- families
# Each family yields texts; `n` scales how many.

def structured(rng, n, size=12, **kw):
    for _ in range(n):
        yield ObjFile(rng, size=size, **kw).text()


def multi_object(rng, n):
    """Many objects, little in each: offsets, resets and leaks."""
    for _ in range(n):
        yield ObjFile(rng, size=rng.choice([2, 4, 6]), objects=rng.randrange(2, 9), layout=False).text()


def mutated(rng, n):
    for _ in range(n):
        base = ObjFile(rng, size=rng.choice([2, 5, 9]), err=rng.choice([0.0, 0.1])).text()
        yield mutate(rng, base, OBJ_VOCABULARY)


def faulty(rng, n):
    for _ in range(n):
        yield ObjFile(rng, size=rng.choice([3, 8, 14]), err=rng.choice([0.1, 0.3, 0.8])).text()


def soup(rng, n):
    """Words in no order at all."""
    for _ in range(n):
        words = [pick(rng, OBJ_VOCABULARY) for _ in range(rng.randrange(1, 14))]
        t = ""
        for w in words:
            t += w + pick(rng, [" ", " ", " ", "\n", "\n", "\t", "", "\r\n"])
        yield t


def characters(rng, n, alphabet=None):
    alphabet = alphabet or "vtnpflgso 123-/.\n\r\t\\#e+ \n é\u00a0\x0b\x0c\u2028\u0085\x00🙂aKdm"
    for _ in range(n):
        yield "".join(pick(rng, alphabet) for _ in range(rng.randrange(1, 24)))


def reals_torture(rng, n):
    """Every spelling in every place."""
    pool = REALS + NOT_REALS
    places = ["v %s 2 3\n", "v 1 %s 3\n", "v 1 2 %s\n", "v 1 2 3 %s\n", "vt %s\n", "vt 1 %s\n", "vt 1 2 %s\n",
              "vn %s 2 3\n", "vn 1 %s 3\n", "vn 1 2 %s\n", "v 1 2 %s", "vt 1 2 %s", "vn 1 2 %s#", "o a\nv %s\n4\n5\n"]
    for w in pool:
        for p in (places if len(w) < 6 else places[:10]):
            yield p % w
    for _ in range(n):
        w = "".join(pick(rng, "0123456789.eE+-") for _ in range(rng.randrange(1, 9)))
        if chance(rng, 0.5):
            w = real(rng, 1.0)
        if chance(rng, 0.2):
            w = ("%s%s%s%s" % (pick(rng, ["", "-", "+"]), "".join(pick(rng, "0123456789") for _ in range(rng.randrange(0, 40))),
                               pick(rng, ["", ".", "." + "".join(pick(rng, "0123456789") for _ in range(rng.randrange(0, 40)))]),
                               pick(rng, ["", "e", "E"]) and "e%d" % rng.randrange(-340, 320)))
        yield pick(rng, places) % w


def ints_torture(rng, n):
    pre = "v 1 2 3\nv 4 5 6\nv 7 8 9\nvt 1\nvt 2\nvn 1 2 3\n"
    pre2 = pre + "o b\n" + pre
    places = ["p %s\n", "p 1 %s\n", "l 1 %s\n", "l %s 1\n", "f %s 1 1\n", "f 1 %s 2\n", "f 1 1 %s\n", "f 1/%s 1/1 1/1\n",
              "f 1/1 1/%s 1/2\n", "f 1//%s 1//1 1//1\n", "f 1//1 1//1 1//%s\n", "f 1/1/%s 1/1/1 1/1/1\n",
              "f 1/%s/1 1/1/1 1/1/1\n", "f %s/1/1 1/1/1 1/1/1\n", "l 1/%s 1/1\n", "l 1//1 1//%s\n", "f -1 -1 -1 %s\n"]
    words = INTS + ODD_INTS
    for w in words:
        for p in places:
            yield pre + p % w
    shift = {"1": "4"}
    for w in ["1", "2", "3", "4", "5", "6", "7", "-1", "-2", "-3", "-4", "-5", "-6", "-7", "0", "+4", "-0"]:
        for p in places:
            q = re.sub(r"(?<=[ /])1(?=[ /\n])", "-1", p) % w
            yield pre2 + q
    for w in words + ["off", "OFF", "Off", "on", "-off", "off1", "offf", "of", "oFf"]:
        yield "v 1 2 3\ns %s\np 1\n" % w
        yield "v 1 2 3\np 1\ns %s\np 1\ns 1\np 1\n" % w
    for _ in range(n):
        w = "".join(pick(rng, "0123456789-+/") for _ in range(rng.randrange(1, 6)))
        yield pre + pick(rng, places) % w


def mtl_numbers(rng, n):
    for w in REALS + NOT_REALS:
        for p in ["Ka %s 2 3", "Kd 1 %s 3", "Ks 1 2 %s", "Ke %s 0 0", "Ns %s", "d %s", "Ni %s"]:
            yield "newmtl a\n" + p % w + "\n"
    for w in INTS + ODD_INTS + ["2", "3", "10", "1.0", "x"]:
        yield "newmtl a\nillum %s\n" % w
        yield "newmtl a\nillum %s" % w
    for _ in range(n):
        yield "newmtl a\n%s %s\n" % (pick(rng, ["Ns", "d", "Ni"]), real(rng, 1.0))


# Everything there is, with no value that is a default.
FULL_OBJ = "mtllib m.mtl\no q\nv 1 2 3 4\nv 5 6 7\nv 8 9 1\nvt 1 2 3\nvn 1 2 3\ng a b\ns 1\nusemtl w\nf 1/1/1 2/1/1 3/1/1\ng c\ns 2\n" \
    "usemtl x\nl 1 2 3\np 1 2\no r\nv 1 1 1\nv 2 2 2\nv 3 3 3\nvt 4\nvn 4 4 4\ng d\ns 3\nusemtl y\nf 4//2 5//2 6//2\nl 4/2 5/2\np 6\n"
FULL_MTL = "newmtl z\nd .2\nnewmtl a\nKa .1 .2 .3\nKd .4 .5 .6\nKs .7 .8 .9\nKe .3 .2 .1\nNs 7\nd .5\nNi 1.5\nillum 1\nmap_Ka a\nmap_Kd b\n" \
    "map_Ks c\nmap_Ke e\nmap_Ns f\nbump g\ndisp h\nmap_d i\ndecal j\n"


def keywords(rng, n):
    """Unsupported and misspelt statements in every kind of surroundings."""
    around = ["%s\n", "%s", "v 1 2 3\n%s\n", "o a\n%s\n", "mtllib m\n%s\nv 1 2 3\n", "v 1 2 3\np 1\n%s\np 1\n",
              "v 1 2 3\no b\n%s\n", "usemtl m\n%s\n", "g a\n%s\n", "v 1 2 3\ns 1\n%s\n", "o a\n\n\n%s\n", "v 1 2 3 %s\n",
              FULL_OBJ + "%s\n", FULL_OBJ + "%s\np -1\n", FULL_OBJ + "%s",
              "v 1 2 3\nf 1 1 1\n%s\n", "vt 1\n%s\n", "vn 1 2 3\n%s\n", "# c\n%s\n"]
    for w in UNSUPPORTED + OBJ_KEYWORDS + ["\ufeffv 1 2 3", "\x00", "é", "v\u00a01 2 3", "v\x0b1 2 3"]:
        for a in around:
            yield a % w
    for _ in range(n):
        yield pick(rng, around) % ("".join(pick(rng, "vtnpflgsoumek") for _ in range(rng.randrange(1, 4))) + pick(rng, ["", " 1", " 1 2 3", " a"]))


def mtl_keywords(rng, n):
    around = ["%s\n", "newmtl a\n%s\n", "newmtl a\n%s", "newmtl a\nKa 1 2 3\n%s\n", "newmtl a\n%s\nnewmtl b\n",
              FULL_MTL + "%s\n", FULL_MTL + "%s\nnewmtl b\n", FULL_MTL + "%s",
              "newmtl a\nmap_Kd x\n%s\nd 1\n", "\n%s\n", "newmtl a\nd 1\nnewmtl b\n%s\n"]
    args = ["", " 1", " 1 2", " 1 2 3", " 1 2 3 4", " x", " x y", " 0 x 0", " -s 1 1 1 x.png", " #", " 1 1 # c", " spectral x",
            " -halo 1", " 3", " -1"]
    for w in MTL_UNSUPPORTED + MTL_FIELDS + ["newmtl"]:
        for a in around:
            for g in (args if a in around[1:5] else args[:4]):
                yield a % (w + g)


def sizes(tier):
    return [7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257] + \
        ([511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097] if tier == "thorough" else
         [511, 513, 1000, 1024, 1025])


def scale(rng, what, tier="quick"):
    """Files in which one thing is as many as the thresholds people trip over."""
    S = sizes(tier)
    tri = "v 0 0 1\nv 1 0 2\nv 0 1 3\n"
    if what == "polygon":
        for n in S:
            vs = "".join("v %d %d 0\n" % (i, i * i) for i in range(min(n, 300)))
            m = min(n, 300)
            yield vs + "f " + " ".join(str(i % m + 1) for i in range(n)) + "\n"
            yield vs + "g x\nf " + " ".join(str(-(i % m) - 1) for i in range(n)) + "\np 1\n"
    elif what == "polyline":
        for n in S:
            vs = "".join("v %d 1 0\n" % i for i in range(min(n, 300)))
            m = min(n, 300)
            yield vs + "l " + " ".join(str(i % m + 1) for i in range(n)) + "\n"
            yield vs + "p " + " ".join(str(i % m + 1) for i in range(n)) + "\np -1\n"
    elif what == "vertices":
        for n in S:
            kinds = ["v %d 0.5 1", "vt %d 0.5", "vn 0 %d 1"]
            k = rng.randrange(3)
            t = "".join(kinds[(k + 0) % 3] % i + "\n" for i in range(n))
            t += "".join(kinds[(k + 1) % 3] % i + "\n" for i in range(n // 2 + 1))
            t += "".join(kinds[(k + 2) % 3] % i + "\n" for i in range(3))
            nv, nt, nn = [((n, n // 2 + 1, 3)[[(k + 0) % 3, (k + 1) % 3, (k + 2) % 3].index(j)]) for j in range(3)]
            t += "f %d/%d/%d %d/%d/%d -%d/-%d/-%d\n" % (nv, nt, nn, 1, 1, 1, nv, nt, nn)
            t += "l -1/-1 -2/-2\nf %d//%d -1//-1 %d//%d\n" % (nv // 2 + 1, nn, nv - 1, 1)
            yield t
            yield t + "o b\nv 1 2 3\nvt 1\nvn 1 2 3\np %d -1\nf %d/%d/%d -1/-1/-1 %d/-1/-1\n" % (
                nv + 1, nv + 1, nt + 1, nn + 1, nv + 1)
            yield t + pick(rng, ["p %d\n" % (nv + 1), "p -%d\n" % (nv + 1), "l 1/%d 1/1\n" % (nt + 1), "l 1/-%d 1/1\n" % (nt + 1),
                                 "l 1//%d 1//1\n" % (nn + 1), "l 1//-%d 1//1\n" % (nn + 1)])
    elif what == "elements":
        for n in S:
            t = [tri]
            for i in range(n):
                if i % 5 == 3:
                    t.append(pick(rng, ["g a%d\n" % i, "s %d\n" % i, "usemtl m%d\n" % i, "g\n", "s off\n", "g a b\n"]))
                t.append(pick(rng, ["f 1 2 3\n", "p 1\n", "l 2 3\n", "f -1 -2 -3\n", "p 2 3\n", "f 1 2 3 1\n"]))
            yield "".join(t)
    elif what == "groups":
        for n in S:
            yield tri + "".join("g n%d\n" % i + ("p %d\n" % (i % 3 + 1) if i % 7 != 2 else "") for i in range(n)) + "p 1\n"
            if n <= 520:
                yield tri + "g " + " ".join("n%d" % (i % 97) for i in range(n)) + "\np 1\ng z\np 2\n"
    elif what == "smooth":
        for n in S:
            yield tri + "".join("s %d\n" % (i % 50) + ("p %d\n" % (i % 3 + 1) if i % 7 != 2 else "") for i in range(n)) + "p 1\n"
    elif what == "materials":
        for n in S:
            yield tri + "".join("usemtl m%d\n" % (i % 60) + ("p %d\n" % (i % 3 + 1) if i % 7 != 2 else "") for i in range(n)) + "p 1\n"
            yield tri + "p 1\n" + "usemtl a\n" + "p 2\n" * n + "usemtl b\np 3\n" + "f 1 2 3\n" * (n // 3)
    elif what == "objects":
        for n in S:
            if n > 1100:
                continue
            yield "".join("o n%d\n" % i + ("v %d 2 3\np -1\n" % i if i % 5 else "") for i in range(n))
            yield "".join("o n\nv 1 2 %d\nv 0 0 %d\nvt %d\ng a\nl -1/-1 -2/-1\np %d\n" % (i, i, i, 2 * i + 1) for i in range(n))
    elif what == "libraries":
        for n in S:
            yield "".join("mtllib m%d.mtl\n" % i for i in range(n)) + "v 1 2 3\n"
            yield "mtllib " + " ".join("m%d.mtl" % (i % 50) for i in range(n)) + "\n" + "v 1 2 3\n"
    elif what == "lines":
        for n in S + [2000, 5000]:
            yield "\n" * (n - 1) + "v 1 2\n"
            yield "# c\n" * (n - 1) + "x\n"
            yield "\r\n" * (n - 1) + "f 1 2 3"
            yield "v 1 2 3\n" * (n - 1) + "p %d" % (n + 3)
            yield ("v 1 2 3 # c\n\n" * (n // 2)) + "s q\n"
            yield tri + "p 1 2 3\n" * (n - 4) + "usemtl\n"
    elif what == "long":
        for n in S + ([1500, 3000] if tier == "quick" else [5000, 9000]):
            yield "o " + "n" * n + "\nv 1 2 3\np 1\n"
            yield "#" + "c" * n + "\nv 1 2 3\n#" + " c" * n + "\np 1"
            yield "v" + " " * n + "1 2" + "\t" * n + "3\ng " + "x" * n + " y\np 1\n"
            yield "v 1 2 3\nusemtl " + "m" * n + "\np 1\n"
            yield "mtllib " + "m" * n + ".mtl\n"
            yield "v 0." + "0" * n + "1 1" + "0" * min(n, 250) + " 0." + "3" * n + "\n"
            yield "v 1 2 3\np " + "0" * n + "1\n"
    elif what == "mtl":
        for n in S:
            if n > 1100:
                continue
            yield "".join("newmtl m%d\n" % i + ("Kd 0.%d 1 %d\n" % (i, i) if i % 3 else "d .5\nillum 1\nmap_Kd t%d\n" % i)
                          for i in range(n))
            yield "newmtl a\n" + "".join("Ns %d\n" % i for i in range(n)) + "newmtl b\n"
            yield "\n" * (n - 1) + "newmtl\n"
            yield "newmtl a\n" + "# c\n" * (n - 2) + "Ka 1 x 1\n"
            yield "newmtl " + "n" * n + "\nmap_Kd " + "f" * n + ".png\n"


SCALES = ["polygon", "polyline", "vertices", "elements", "groups", "smooth", "materials", "objects", "libraries", "lines",
          "long", "mtl"]


def big(rng, n):
    """One large file: n vertices, references across its whole range."""
    t = ["mtllib a.mtl\no big\n"]
    for i in range(n):
        t.append("v %d %d.5 -%d\n" % (i, i % 97, i % 11))
    for i in range(200):
        a = rng.randrange(n) + 1
        t.append("f %d -%d %d\n" % (a, a, n - a + 1))
    t.append("p 1 %d -1 -%d\no small\nv 1 2 3\np %d -1\n" % (n, n, n + 1))
    return "".join(t)


def assets():
    d = os.path.join(REPO, "assets")
    out = []
    for root, _, names in os.walk(d):
        for f in sorted(names):
            if f.endswith(".obj") or f.endswith(".mtl"):
                try:
                    with open(os.path.join(root, f), encoding="utf-8") as h:
                        out.append((f, h.read()))
                except (OSError, UnicodeDecodeError):
                    pass
    return sorted(out)


def coincidences(rng, n, most=22):
    """Small alphabets, so that values, names and references repeat."""
    for _ in range(n):
        t = []
        nv = 0
        for _ in range(rng.randrange(4 if most < 100 else 60, most)):
            k = rng.randrange(12)
            if k < 3 or nv == 0:
                t.append(pick(rng, ["v 0 0 0\n", "v 1 1 1\n", "v 0 0 0 1\n", "v 0 0 0 0\n", "v -0 0 0\n"]))
                nv += 1
            elif k == 3:
                t.append(pick(rng, ["g a\n", "g a a\n", "g b a\n", "g a b\n", "g\n", "g default\n", "g default a\n"]))
            elif k == 4:
                t.append(pick(rng, ["s 1\n", "s 1\n", "s off\n", "s 0\n", "s 2\n"]))
            elif k == 5:
                t.append(pick(rng, ["usemtl a\n", "usemtl a\n", "usemtl b\n", "usemtl default\n"]))
            elif k == 6 and chance(rng, 0.6):
                t.append(pick(rng, ["o a\n", "o a\n", "o b\n", "o default\n"]))
                nv = 0
            elif k == 7:
                t.append("vt 0 0\nvn 0 0 0\nf -1/-1/-1 -1/-1/-1 -1/-1/-1\n")
            else:
                m = rng.randrange(1, nv + 1)
                t.append(pick(rng, ["p -%d\n" % m, "p -1 -1\n", "l -1 -%d -1\n" % m, "f -1 -1 -1\n", "f -%d -1 -1 -%d\n" % (m, m),
                                    "f -1 -%d -1 -1 -1\n" % m, "l -1 -1\n"]))
        yield "".join(t)


REF_SHAPES = ["%s/", "%s//", "%s/%s/", "%s/%s//", "%s//%s/", "%s///", "%s/%s/%s/", "%s/%s/%s/%s", "%s/%s/%s//", "%s//%s/%s",
              "%s///%s", "/%s", "//%s", "/%s/%s", "//", "/", "///", "%s/%s/%s", "%s//%s", "%s/%s", "%s", "%s/x", "%s//x", "%s/%s/x",
              "x/%s", "%s/ %s", "%s /%s", "%s/%s/%s/x", "%s/%s/%s/%s/%s", "%s\\/%s", "%s/+%s", "%s/-", "%s/0", "%s//0", "0/%s",
              "%s/%s/0", "%s|%s", "%s,%s", "%s/%s.", "%s.0", "%s-%s", "%s/%s/%s#", "%s/#", "%s//%s//", "%s/%s-", "%s:%s/%s"]


def refs_torture(rng, n):
    """Malformed references, at one corner and at all corners."""
    pre = "v 1 2 3\nv 4 5 6\nv 7 8 9\nvt 1\nvt 2\nvt 3\nvn 1 2 3\nvn 4 5 6\nvn 7 8 9\n"

    def fill(shape):
        out = shape
        while "%s" in out:
            out = out.replace("%s", pick(rng, ["1", "2", "3", "-1", "-2", "-3"]), 1)
        return out
    for shape in REF_SHAPES:
        for kw, lo in (("p", 1), ("l", 2), ("f", 3)):
            for k in (lo, lo + 1):
                yield pre + kw + " " + " ".join(fill(shape) for _ in range(k)) + "\n"
            yield pre + kw + " " + " ".join(shape.replace("%s", "1") for _ in range(lo)) + pick(rng, ["", "\n", "\np 1\n"])
            base = pick(rng, ["1", "1/1", "1//1", "1/1/1"])
            for at in range(lo + 1):
                ws = [base] * (lo + 1)
                ws[at] = fill(shape)
                yield pre + kw + " " + " ".join(ws) + "\n"
    for _ in range(n):
        shape = "".join(pick(rng, ["1", "2", "-1", "/", "/", "/", "3", "0", "x", "+1", "4"]) for _ in range(rng.randrange(1, 8)))
        kw, lo = pick(rng, [("p", 1), ("l", 2), ("f", 3)])
        ws = [shape] * (lo + rng.randrange(2))
        if chance(rng, 0.3):
            ws[rng.randrange(len(ws))] = pick(rng, ["1", "1/1", "1//1", "1/1/1"])
        yield pre + kw + " " + " ".join(ws) + "\n"


def displaced(rng, n, **kw):
    """A valid file with one line moved, removed or repeated, so that what it
    names may come later, twice or not at all."""
    for _ in range(n):
        lines = ObjFile(rng, size=rng.choice([3, 6, 12]), layout=False, odd=0, **kw).text().split("\n")[:-1]
        for _ in range(rng.choice([1, 1, 2])):
            if not lines:
                break
            vs = [i for i, ln in enumerate(lines) if ln.startswith("v")] or list(range(len(lines)))
            i = pick(rng, vs) if chance(rng, 0.7) else rng.randrange(len(lines))
            k = rng.randrange(6)
            if k == 0:
                del lines[i]
            elif k == 1:
                lines.insert(rng.randrange(len(lines) + 1), lines[i])
            elif k == 2:
                lines.insert(rng.randrange(i + 1), lines.pop(i))
            else:
                ln = lines.pop(i)
                lines.insert(rng.randrange(i, len(lines) + 1), ln)
        yield "".join(ln + "\n" for ln in lines)


WIDE = ["é", "ß", "€", "日", "🙂", "\u0301", "\u00a0", "\u2028", "\ufeff", "ÿ", "\u0800", "\uffff", "\U0010ffff", "İ", "ŉ"]


def wide_words(rng, n):
    """Words of many multi-byte characters in every place of every statement:
    (kind, text)."""
    obj = ["%s", "v %s 2 3", "v 1 %s 3", "v 1 2 %s", "v 1 2 3 %s", "v 1 2 3 4 %s", "vt %s", "vt 1 %s", "vt 1 2 %s", "vt 1 2 3 %s",
           "vn %s 2 3", "vn 1 2 %s", "vn 1 2 3 %s", "p %s", "p 1 %s", "l %s 1", "l 1 %s", "l 1 1 %s", "f %s 1 1", "f 1 1 %s",
           "f 1 1 1 %s", "f 1/%s 1/1 1/1", "f 1//%s 1 1", "g %s", "g a %s", "s %s", "s 1 %s", "usemtl %s", "usemtl a %s", "o %s",
           "o a %s", "mtllib %s", "mtllib a %s", "# %s", "#%s", "v%s", "p 1%s", "f%s 1 1 1", "v 1%s 2 3", "g%s", "s 1%s", "o%s a"]
    mtl = ["%s", "newmtl %s", "newmtl a %s", "Ka %s 1 1", "Kd 1 %s 1", "Ks 1 1 %s", "Ke 1 1 1 %s", "Ns %s", "Ns 1 %s", "d %s", "Ni %s",
           "illum %s", "illum 1 %s", "map_Kd %s", "map_Kd a %s", "bump %s", "disp %s", "decal %s", "# %s", "K%s", "map_%s", "illum 1%s"]
    words = []
    for c in WIDE[:6]:
        for k in (1, 2, 7, 20, 33, 70, 200):
            for lead in ("", "a", "ab", "abc"):
                words.append(lead + c * k)
    for _ in range(n):
        for kind, places, pre in (("obj", obj, "v 1 2 3\nvt 1\nvn 1 2 3\n"), ("mtl", mtl, "newmtl q\n")):
            for p in places:
                w = pick(rng, words) if chance(rng, 0.75) else "".join(
                    pick(rng, WIDE + ["a", "1", "/", "-", "."]) for _ in range(rng.randrange(1, 60)))
                lead = pre if kind == "mtl" or not p.startswith("mtllib") else ""
                if chance(rng, 0.2):
                    lead = ""
                yield kind, lead + p % w + pick(rng, ["\n", "", "\nv 1 2 3\n", " ", "#"])


def siblings(rng, text, n):
    """Texts that are easily mistaken for the given one."""
    out = []
    for _ in range(n):
        k = rng.randrange(7)
        t = text
        if not t:
            break
        lines = t.split("\n")
        if k == 0:
            at = [i for i, c in enumerate(t) if c.isdigit()]
            if at:
                i = pick(rng, at)
                t = t[:i] + pick(rng, "123456789") + t[i + 1:]
        elif k == 1:
            i, j = rng.randrange(len(lines)), rng.randrange(len(lines))
            lines[i], lines[j] = lines[j], lines[i]
            t = "\n".join(lines)
        elif k == 2:
            ws = t.split(" ")
            i, j = rng.randrange(len(ws)), rng.randrange(len(ws))
            ws[i], ws[j] = ws[j], ws[i]
            t = " ".join(ws)
        elif k == 3:
            i = rng.randrange(len(t))
            t = t[:i] + t[i + 1:i + 2] + t[i:i + 1] + t[i + 2:]
        elif k == 4:
            at = [i for i, c in enumerate(t) if c in "abcdxyz"]
            if at:
                i = pick(rng, at)
                t = t[:i] + pick(rng, "abcdxyz") + t[i + 1:]
        elif k == 5:
            t = t[:-1] + pick(rng, ["", "\n\n", " \n", "\n#", " ", "\r\n", "\r"])
        else:
            at = [i for i, c in enumerate(t) if c.isdigit()]
            if len(at) > 1:
                i, j = sorted(rng.sample(at, 2))
                t = t[:i] + t[j] + t[i + 1:j] + t[i] + t[j + 1:]
        out.append(t)
    return out


def huge(rng, what, n):
    """One text in which one thing is there n times."""
    tri = "v 0 0 1\nv 1 0 2\nv 0 1 3\n"
    R = range(n)
    if what == "vertices":
        return "mtllib a\no big\n" + "".join("v %d 0.5 1\n" % (i % 1000) for i in R) + \
            "p 1 %d -1 -%d\nf %d %d %d\no small\nv 1 2 3\np %d -1\n" % (n, n, n - 1, n // 2, 257, n + 1)
    if what == "texture vertices":
        return "v 1 2 3\n" + "".join("vt 0.%d\n" % (i % 1000) for i in R) + \
            "f 1/%d 1/1 1/-%d\nl 1/-1 1/%d\no small\nv 1 2 3\nvt 7\nl 2/%d 2/-1\n" % (n, n, n - 1, n + 1)
    if what == "normals":
        return "v 1 2 3\n" + "".join("vn 0 0 %d\n" % (i % 1000) for i in R) + \
            "f 1//%d 1//1 1//-%d\nl 1//-1 1//%d\no small\nv 1 2 3\nvn 7 7 7\nl 2//%d 2//-1\n" % (n, n, n - 1, n + 1)
    if what == "elements":
        return tri + "usemtl a\ng b\n" + "p 1\n" * (n - 1) + "s 3\nusemtl c\ng d\nf 1 2 3\nl 1 2\n"
    if what == "corners":
        return tri + "f" + " 1 2 3" * (n // 3) + " 2\np 1\n"
    if what == "segments":
        return tri + "l" + " 1 2 3" * (n // 3) + " 2\np 1\n"
    if what == "points":
        return tri + "p" + " 1 2 3" * (n // 3) + " 2\nl 1 2\n"
    if what == "groups":
        return tri + "".join("g n%d\n" % (i % 100) for i in R) + "p 1\ng z\np 2\n"
    if what == "names":
        return tri + "g" + "".join(" n%d" % (i % 100) for i in R) + "\np 1\ng z\np 2\n"
    if what == "smooth":
        return tri + "".join("s %d\n" % (i % 100) for i in R) + "p 1\ns 7\np 2\n"
    if what == "materials":
        return tri + "".join("usemtl m%d\np 1\n" % (i % 100) for i in R) + "usemtl z\np 2\n"
    if what == "objects":
        return "".join("o n%d\n" % (i % 100) for i in R) + "v 1 2 3\np 1\n"
    if what == "libraries":
        return "".join("mtllib m%d\n" % (i % 100) for i in R) + "mtllib a b\nv 1 2 3\n"
    if what == "lines":
        return "".join(("\n", "# c\n", " \n")[i % 3] for i in R) + "v 1 2\n"
    if what == "blank lines":
        return "v 1 2 3\n" + "\n" * n + "p 1\n" + "\n" * n + "x\n"
    if what == "comments":
        return "v 1 2 3\n" + "#\n" * n + "p 1\n" + "#" * n + "\n" + "# c\n" * 9 + "s\n"
    if what == "crlf lines":
        return "v 1 2 3\r\n" + "\r\n" * n + "\r" * n + "p 2\r\n"
    if what == "blanks":
        return "v" + " " * n + "1 2 3\n" + "\t" * n + "p" + "\\" * n + "1" + " " * n + "\n"
    if what == "word":
        return "mtllib a " + "l" * n + "\no " + "n" * n + "\nv 1 2 3\ng " + "g" * n + "\nusemtl " + "m" * n + "\np 1\n#" + "c" * n + "\n"
    if what == "bad word":
        return "v 1 2 3\n" + "x" * n + " 1\n"
    if what == "digits":
        return "v 0." + "0" * n + "1 " + "0" * n + "1 0." + "3" * n + "\np " + "0" * n + "1\ns " + "0" * n + "7\np 1\n"
    if what == "mtl materials":
        return "".join("newmtl m%d\n" % (i % 100) for i in R) + "Kd 1 2 3\nnewmtl z\n"
    if what == "mtl statements":
        return "newmtl a\n" + "".join(("Ns %d\n", "Kd 1 1 %d\n", "map_Kd f%d\n")[i % 3] % (i % 1000) for i in R) + "newmtl z\n"
    if what == "mtl lines":
        return "newmtl a\n" + "".join(("\n", "# c\n", " \n")[i % 3] for i in R) + "Ka 1 2\n"
    if what == "mtl blank lines":
        return "\n" * n + "newmtl a\n" + "\n" * n + "d 1\n" + "\n" * n + "x\n"
    if what == "mtl word":
        return "newmtl " + "n" * n + "\nmap_Kd " + "f" * n + "\n#" + "c" * n + "\n"
    if what == "mtl bad word":
        return "newmtl a\n" + "x" * n + " 1\n"
    raise KeyError(what)


def huge_layout(rng, sizes):
    """Pairs of texts that differ in layout only, and by much, in one place."""
    texts = [("obj", ["mtllib a b\n", "o x\n", "v 1 2 3\n", "vt 1\n", "vn 1 2 3\n", "g a b\n", "s 1\n", "usemtl m\n", "p 1\n", "f 1/1/1 1/1/1 1/1/1\n"]),
             ("mtl", ["newmtl a\n", "Kd 1 2 3\n", "Ns 1\n", "map_Kd x\n", "newmtl b\n"])]
    for n in sizes:
        words = ["#" + "c" * n, "#" + " v 1 2 3" * (n // 8), "# " + "#" * n, " " * n, "\t" * n, "\\" * n, " \t\\" * (n // 3),
                 " # " + "\u00e9" * n]
        for kind, lines in texts:
            plain = "".join(lines)
            for w in words:
                i = rng.randrange(len(lines))
                for made in (lines[:i] + [w, "\n"] + lines[i:], lines[:i] + [lines[i][:-1] + (" " if w[0] == "#" else "") + w + "\n"] + lines[i + 1:],
                             lines + [w], [w + "\r\n"] + lines):
                    yield "layout", kind, plain, "".join(made), None
                if "#" not in w:
                    i = rng.randrange(len(lines))
                    j = lines[i].index(" ")
                    yield "layout", kind, plain, "".join(lines[:i] + [w + lines[i][:j] + w + lines[i][j + 1:]] + lines[i + 1:]), None
            for w in ("\n", "\r", "\r\n", "#\n", "# v\r", " \n"):
                i = rng.randrange(len(lines))
                yield "layout", kind, plain, "".join(lines[:i] + [w * (n // len(w))] + lines[i:]), None


# ------------------------------------------------- surplus, names, short sets

SURPLUS = ["-x", "-1", "1", "a", "/", "1/1", "-", "+", "--", "0", "2.5", "off", "\u00a0", "v", "é", ".", "nan", "-s", "=", "\x0b", "1 2", "a b c",
           "-o 1", "...", "//", ";", "\"", "$", "true"]


def surplus(rng, n):
    """A complete statement and something after it: (kind, text)."""
    pre = "v 1 2 3\nv 4 5 6\nv 7 8 9\nvt 1\nvn 1 2 3\n"
    obj = ["v 1 2 3", "v 1 2 3 4", "vt 1", "vt 1 2", "vt 1 2 3", "vn 1 2 3", "p 1", "p 1 2", "l 1 2", "l 1/1 2/1", "f 1 2 3",
           "f 1/1/1 2/1/1 3/1/1", "f 1//1 2//1 3//1 1//1", "g", "g a", "s 1", "s off", "usemtl a", "o a"]
    top = ["mtllib a.mtl", "mtllib a.mtl\nmtllib b.mtl", "o a", "g a", "usemtl m", "s 1", "v 1 2 3"]
    mtl = ["newmtl a", "Ka 1 2 3", "Kd 1 2 3", "Ks 1 2 3", "Ke 1 2 3", "Ns 1", "d 1", "Ni 1", "illum 1", "map_Ka a", "map_Kd a.png",
           "map_Ks a", "map_Ke a", "map_Ns a", "map_d a", "map_Bump a", "bump a", "disp a", "decal a"]
    ends = ["\n", "", "\np 1\n", " # c\n", "\r\n"]
    for _ in range(n):
        for w in SURPLUS:
            for st in obj:
                yield "obj", pre + st + " " + w + pick(rng, ends)
            for st in top:
                yield "obj", st + " " + w + pick(rng, ends[:2] + ["\nv 1 2 3\np -1\n"])
            for st in mtl:
                yield "mtl", "newmtl q\n" + st + " " + w + pick(rng, ["\n", "", "\nd 1\n", "\nnewmtl z\n"])


PATHS = ["./a.mtl", "../a.mtl", ".\\a", "/a", "a/", "~/x", "file:x", "C:", "C:/a/b.mtl", "a.", ".a", "..", ".", "a..b", "'a'", "\"a\"", "`a`",
         "<a>", "a/./b", "a//b", "%20", "a%20b", "a+b", "a&b", "A.MTL", "a.Mtl", "a.mtl.mtl", ".mtl", "mtl", "a.obj", "-a", "--a", "-",
         "_", "__a__", "a_", "a-", "0a", "00", "-0", "+1", "1.0", "1e5", "0x1f", "NULL", "None", "(null)", "undefined", "Default",
         "DEFAULT", "default ", "default.", "defaults", "Off", "OFF", "a#", "é", "É", "ß", "ı", "İ", "ﬁ", "Å", "Å", "e\u0301",
         "\ufeffa", "a\ufeff", "\u200ba", "a\u00a0", "\u00a0a", "\u3000", "a\x00b", "\x01", "\u2028", "\x0ba", "a\x0c", "\x1a", "\x1c", "a\x7f",
         "aB", "Ab", "AB", "a" * 31, "a" * 32, "a" * 63, "a" * 64, "a" * 65, "a" * 127, "a" * 128, "a" * 256, "$HOME", "${x}", "{}",
         "[a]", "a,b", "a;b", "a|b", "a=b", "a:b", "@a", "!a", "?", "*", "a*", "^a", "a\"b", "a'b", "\\", "🙂a", "\U0010ffff"]


def name_torture(rng, n):
    """Names that software likes to change, in every statement that has one:
    (kind, text)."""
    for w in list(dict.fromkeys(PATHS + NAMES)):
        x = pick(rng, PATHS + NAMES)
        yield "obj", "mtllib %s\nmtllib %s %s\no %s\nv 1 2 3\ng %s\nusemtl %s\np 1\n" % (w, x, w, w, w, w)
        yield "obj", "v 1 2 3\ng %s %s\np 1\ng %s\np 1\nusemtl %s\np 1\nusemtl %s\np 1\no %s\nv 1 2 3\np -1\n" % (w, x, w, w, x, w)
        yield "mtl", "newmtl %s\n%s %s\n%s %s\nnewmtl %s\n%s %s\n" % (
            w, pick(rng, MTL_FIELDS[8:]), w, pick(rng, MTL_FIELDS[8:]), x, x, pick(rng, MTL_FIELDS[8:]), w)
    for f in MTL_FIELDS[8:]:
        for w in PATHS[:40]:
            if chance(rng, 0.3 * n):
                yield "mtl", "newmtl a\n%s %s\n" % (f, w)
    for _ in range(60 * n):
        k = rng.randrange(4)
        a, b = pick(rng, PATHS), pick(rng, ["", "a", "default", "wood"])
        w = a + b if k else b + a
        yield "obj", "mtllib %s\no %s\nv 1 2 3\ng %s a\nusemtl %s\np 1\n" % (w, w, w, w)


def short_sets(rng, n):
    """Elements of few and many corners over sets of vertices that are empty or
    short in the current object, and full in others."""
    for _ in range(n):
        t, tot = [], dict(v=0, vt=0, vn=0)
        for k in range(rng.choice([1, 1, 2, 3])):
            if k or chance(rng, 0.3):
                t.append("o n%d\n" % k)
            have = dict(v=rng.choice([1, 2, 3, 5]), vt=rng.choice([0, 0, 1, 2, 4]), vn=rng.choice([0, 0, 1, 2, 4]))
            base = dict(tot)
            for x, line in (("v", "v %d 2 3\n"), ("vt", "vt 0.%d\n"), ("vn", "vn %d 0 1\n")):
                for i in range(have[x]):
                    t.append(line % (tot[x] + 1))
                    tot[x] += 1
            for _ in range(rng.choice([1, 1, 2])):
                form = rng.choice(["v", "vt", "vn", "vtn"])
                kw, m = rng.choice([("f", rng.choice([3, 4, 5, 7, 8, 9, 12, 16, 17, 20])), ("l", rng.choice([2, 3, 5, 8, 9, 16, 17])),
                                    ("p", rng.choice([1, 2, 8, 9, 17]))])
                if kw == "p":
                    form = "v"
                bad = rng.choice([None, "v", "vt", "vn"])
                at = rng.randrange(m)

                def ref(x, i):
                    h = have[x]
                    if (bad == x and i == at) or h == 0:
                        return str(rng.choice([base[x], base[x] + h + 1, base[x] + h + 2, -h - 1, -h - 2, base[x] + 1 if h == 0 else 0, 1]))
                    q = rng.randrange(h)
                    return str(q - h) if chance(rng, 0.5) else str(base[x] + q + 1)
                ws = []
                mixed = at if chance(rng, 0.25) else m
                for i in range(m):
                    a = ref("v", i)
                    if i == mixed:
                        form = rng.choice(["v", "vt", "vn", "vtn"])
                    ws.append({"v": lambda: a, "vt": lambda: a + "/" + ref("vt", i), "vn": lambda: a + "//" + ref("vn", i),
                               "vtn": lambda: a + "/" + ref("vt", i) + "/" + ref("vn", i)}[form]())
                t.append(kw + " " + " ".join(ws) + "\n")
        yield "".join(t)


def hollow(rng, n):
    """Objects without names, vertices, elements or anything."""
    parts = ["g\n", "g a\n", "s 1\n", "s off\n", "usemtl m\n", "o a\n", "o b\n", "v 1 2 3\n", "vt 1\n", "vn 1 2 3\n", "p -1\n", "mtllib a\n",
             "\n", "# c\n", "o default\n", "g default\n", "s 0\n"]
    for a in parts:
        yield a
        for b in parts:
            yield a + b
    for _ in range(n):
        yield "".join(pick(rng, parts) for _ in range(rng.randrange(3, 9)))


# ----------------------------------------------------- what the source mentions
# The words and numbers written in the library's own source are tried as words
# and sizes of inputs, as a fuzzer's dictionary is.  They choose inputs only.

_ESC = {"n": "\n", "r": "\r", "t": "\t", "0": "\0", "\\": "\\", "'": "'", '"': '"'}


def _unescape(s):
    out, i = [], 0
    while i < len(s):
        c = s[i]
        if c == "\\" and i + 1 < len(s):
            d = s[i + 1]
            if d == "x":
                try:
                    out.append(chr(int(s[i + 2:i + 4], 16)))
                    i += 4
                    continue
                except ValueError:
                    pass
            if d == "u":
                m = re.match(r"\{([0-9a-fA-F_]+)\}", s[i + 2:])
                if m and int(m.group(1).replace("_", ""), 16) < 0x110000:
                    cp = int(m.group(1).replace("_", ""), 16)
                    out.append(chr(cp) if not 0xd800 <= cp < 0xe000 else "?")
                    i += 2 + m.end()
                    continue
            out.append(_ESC.get(d, d))
            i += 2
            continue
        out.append(c)
        i += 1
    return "".join(out)


def source_literals(root=None):
    """(words, numbers) written in the source, outside its unit tests."""
    words, numbers = [], []
    root = root or os.path.join(REPO, "src")
    for d, _, names in sorted(os.walk(root)):
        for f in sorted(names):
            if not f.endswith(".rs"):
                continue
            try:
                with open(os.path.join(d, f), encoding="utf-8") as h:
                    src = h.read()
            except (OSError, UnicodeDecodeError):
                continue
            src = re.split(r"#\[cfg\(test\)\]", src, maxsplit=1)[0]
            code = []
            for m in re.finditer(r"//[^\n]*|/\*.*?\*/|b?\"((?:[^\"\\]|\\.)*)\"|b?'([^'\\\n]|\\[^\n][^'\n]{0,9})'|.", src, re.S):
                if m.group(1) is None and m.group(2) is None:
                    if not m.group(0).startswith(("//", "/*")):
                        code.append(m.group(0))
                    continue
                code.append(" ")
                w = _unescape(m.group(1) if m.group(1) is not None else m.group(2))
                for x in re.split(r"[ \t\r\n\\#]+", w):
                    if 0 < len(x) <= 40:
                        words.append(x)
            src = "".join(code)
            for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|[0-9][0-9_]*)(?![0-9a-zA-Z_.]*\.[0-9])(?:usize|u8|u16|u32|u64|i32|i64|isize)?\b", src):
                try:
                    v = int(m.group(1).replace("_", "").rstrip("_"), 0) if not re.match(r"0[0-9]", m.group(1)) else int(m.group(1))
                except ValueError:
                    continue
                numbers.append(v)
                if 3 < v < 20:
                    numbers += [1 << v] if "<<" in src else []
            for m in re.finditer(r"[0-9]+\.[0-9]+(?:e-?[0-9]+)?", src):
                words.append(m.group(0))
    return list(dict.fromkeys(words)), sorted(set(numbers))


def fresh_literals():
    """(words, numbers) the source mentions and that of the baseline does not."""
    words, numbers = source_literals()
    w0, n0 = source_literals(BASELINE)
    w0, n0 = set(w0), set(n0)
    return [w for w in words if w not in w0], [n for n in numbers if n not in n0]


def from_source(rng, tier="quick"):
    """(kind, text) from the words and numbers the source mentions."""
    words, numbers = source_literals()
    words = [w for w in words if not any(c in w for c in " \t\r\n\\#")]
    rng.shuffle(words)
    new, newn = map(set, fresh_literals())
    words.sort(key=lambda w: w not in new)
    numbers.sort(key=lambda n: n not in newn)
    pre = "v 1 2 3\nv 4 5 6\nv 7 8 9\nvt 1\nvn 1 2 3\n"
    for w in words[:260]:
        for x in {w, w + "a", "a" + w, "a" + w + "a", w + w} if len(w) < 4 else {w, w + "a", "a" + w}:
            yield "obj", "mtllib %s a\no %s\nv 1 2 3\ng %s b\nusemtl %s\np 1\no %s\nv 1 2 3\ng b %s\np -1\n" % (x, x, x, x, x, x)
            yield "mtl", "newmtl %s\n%s %s\nnewmtl b\n%s %s\n" % (x, pick(rng, MTL_FIELDS[8:]), x, pick(rng, MTL_FIELDS[8:]), x)
        yield "obj", pre + "%s\np 1\n" % w
        yield "obj", pre + "%s %s\np 1\n" % (w, pick(rng, ["1", "1 2", "1 2 3", "a", "1 1 1 1", "off"]))
        yield "obj", pre + pick(rng, ["v 1 2 %s", "v 1 2 3 %s", "v %s 2 3", "vt %s", "vt 1 %s", "vn %s 1 1", "vn 1 1 %s"]) % w + "\np 1\n"
        yield "obj", pre + pick(rng, ["f 1 2 %s", "f %s 2 3", "p %s", "l 1 %s", "f 1/%s 1/1 1/1", "l 1//1 1//%s", "f 1 2 3 %s"]) % w + "\np 1\n"
        yield "obj", pre + pick(rng, ["s %s", "s 1 %s", "o a %s", "usemtl a %s"]) % w + "\np -1\n"
        yield "obj", pre + "# %s\np 1 # %s\n#%s\np 2\n" % (w, w, w)
        yield "mtl", "newmtl a\n%s\nd 1\n" % w
        yield "mtl", "newmtl a\n%s %s\nd 1\n" % (w, pick(rng, ["1", "1 2 3", "a", "0"]))
        yield "mtl", "newmtl a\n" + pick(rng, ["Ka 1 2 %s", "Kd %s 1 1", "Ns %s", "d %s", "illum %s", "newmtl a %s", "map_Kd a %s"]) % w + "\n"
    small = [n for n in numbers if 3 <= n <= 3000][:24]
    large = [n for n in numbers if 3000 < n <= 70000][:3]
    for n in numbers[:60]:
        if n < 10 ** 40:
            for v in (n - 1, n, n + 1):
                yield "obj", pre + "s %d\np 1\n" % v
                yield "obj", pre + "v %d 1 1\nvt %d\nvn 1 1 %d\np 1\n" % (v, v, v)
                yield "obj", pre + pick(rng, ["p %d\n", "p -%d\n", "l 1/%d 1/1\n", "l 1//-%d 1//1\n"]) % abs(v)
                yield "mtl", "newmtl a\nillum %d\n" % v
                yield "mtl", "newmtl a\nNs %d\nd %d\nKa %d 1 1\n" % (v, v, v)
    for n in small:
        for m in sorted({n - 1, n, n + 1, 2 * n}):
            if 0 < m <= 3000:
                yield from _sized(rng, m)
    for n in large:
        for what in ("vertices", "elements", "corners", "objects", "lines", "word", "groups", "materials"):
            yield "obj", huge(rng, what, n + 2)
        for what in ("mtl materials", "mtl statements", "mtl lines", "mtl word"):
            yield "mtl", huge(rng, what, n + 2)


def _sized(rng, m):
    """One of everything, m times."""
    tri = "v 0 0 1\nv 1 0 2\nv 0 1 3\n"
    if m <= 3000:
        yield "obj", tri + "f" + "".join(" %d" % (i % 3 + 1) for i in range(m)) + "\np 1\n"
        yield "obj", tri + "l" + "".join(" %d" % (i % 3 + 1) for i in range(m)) + "\np 1\n"
        yield "obj", tri + "p" + "".join(" %d" % (i % 3 + 1) for i in range(m)) + "\nl 1 2\n"
        yield "obj", tri + "g" + "".join(" n%d" % i for i in range(m)) + "\np 1\n"
        yield "obj", "".join("v %d 0 0\nvt %d\nvn 0 %d 0\n" % (i, i, i) for i in range(m)) + \
            "f %d/%d/%d 1/1/1 -%d/-%d/-%d\no b\nv 1 2 3\np -1 %d\n" % ((m,) * 6 + (m + 1,))
        yield "obj", "".join("v %d 0 0\n" % i for i in range(m)) + "p %d\n" % (m + 1)
        yield "obj", "".join("v %d 0 0\n" % i for i in range(m)) + "p -%d\n" % (m + 1)
        yield "obj", tri + "".join(("f 1 2 3\n", "p 1\n", "l 2 3\n")[i % 3] for i in range(m))
        yield "obj", tri + "".join("g n%d\np 1\n" % i for i in range(m)) + "g n0\np 2\n"
        yield "obj", tri + "".join("s %d\np 1\n" % i for i in range(m)) + "s 0\np 2\n"
        yield "obj", tri + "".join("usemtl n%d\np 1\n" % i for i in range(m)) + "p 2\n"
        yield "obj", "".join("o n%d\nv %d 2 3\np -1\n" % (i, i) for i in range(m))
        yield "obj", "".join("mtllib n%d\n" % i for i in range(m)) + "v 1 2 3\n"
        yield "obj", "mtllib" + "".join(" n%d" % i for i in range(m)) + "\nv 1 2 3\n"
        yield "obj", "\n" * (m - 1) + "v 1 2\n"
        yield "obj", "mtllib %s\no %s\nv 1 2 3\ng %s\nusemtl %s\np 1\n" % (("n" * m,) * 4)
        yield "obj", "#" + "c" * (m - 1) + "\nv 1 2 3\n"
        yield "obj", "v" + " " * m + "1 2 3\n"
        yield "obj", "v " + "0" * (m - 1) + "1 1 1." + "0" * m + "\np " + "0" * (m - 1) + "1\n"
        yield "mtl", "".join("newmtl n%d\nd 0.%d\n" % (i, i) for i in range(m))
        yield "mtl", "newmtl a\n" + "".join("Ns %d\n" % i for i in range(m))
        yield "mtl", "newmtl %s\nmap_Kd %s\n" % ("n" * m, "f" * m)
        yield "mtl", "\n" * (m - 1) + "newmtl\n"


def one_bad_reference(rng, n):
    """A valid file, larger objects too, in which one number of one reference
    is another one."""
    for _ in range(n):
        f = ObjFile(rng, size=rng.choice([4, 8, 14, 30]), objects=rng.choice([1, 2, 2, 3, 4]), layout=False, odd=0, libs=False)
        at = [i for i, ws in enumerate(f.lines) if ws[0] in "plf" and len(ws[0]) == 1]
        if not at:
            continue
        i = pick(rng, at)
        ws = f.lines[i]
        c = rng.randrange(1, len(ws))
        parts = ws[c].split("/")
        k = pick(rng, [x for x in range(len(parts)) if parts[x]])
        v = int(parts[k])
        tot = dict(v=0, vt=0, vn=0)
        base = dict(tot)
        for w in f.lines[:i]:
            if w[0] == "o":
                base = dict(tot)
            elif w[0] in tot:
                tot[w[0]] += 1
        x = ("v", "vt", "vn")[k]
        h = tot[x] - base[x]
        parts[k] = str(rng.choice([0, "-0", "+0", "00", base[x], base[x] - 1, base[x] + h + 1, base[x] + h + 2, -h - 1, -h - 2, 1, h, h + 1,
                                   -tot[x], -tot[x] - 1, -base[x], v + 1, v - 1, -v, 2 * v, base[x] + 1, -h, tot["v"], tot["vt"], tot["vn"],
                                   tot["v"] + 1, tot["vt"] + 1, tot["vn"] + 1, 256 + v, 65536 + v, 2 ** 32 + v, -2 ** 32 + v, 2 ** 63, "", "x", "1.0"]))
        ws[c] = "/".join(parts)
        yield f.text()


def inserted(rng, n):
    """A valid file and, somewhere in it or at its end, a statement that is
    unsupported or unfinished: (kind, text)."""
    bad = UNSUPPORTED + ["v 1 2", "v", "vt", "vn 1 2", "p", "l 1", "l", "f 1 2", "f", "s", "s x", "usemtl", "o", "mtllib a", "mtllib", "v a b c", "o a b",
                         "s 1 2", "usemtl a b", "p x", "f 1 2 x", "p 1/1", "l 1 2/1", "vn 1 2 3 4", "vt 1 2 3 4", "v 1 2 3 4 5", "s -1", "p 0"]
    args = ["", " 1", " 1 2 3", " x", " x y", " .5", " on", " -o 1 x", " 2", " 0 0 0"]
    for _ in range(n):
        f = ObjFile(rng, size=rng.choice([2, 6, 12]), layout=False, odd=0)
        at = len(f.lines) if chance(rng, 0.3) else rng.randrange(len(f.lines) + 1)
        f.lines.insert(at, pick(rng, bad).split(" "))
        t = layout(rng, f.lines, plain=chance(rng, 0.7))
        yield "obj", t if chance(rng, 0.7) else t.rstrip("\r\n")
        lines = mtl_file(rng, materials=rng.choice([1, 1, 2, 3]), lay=False, odd=0).split("\n")[:-1]
        at = len(lines) if chance(rng, 0.3) else rng.randrange(1, len(lines) + 1)
        w = pick(rng, MTL_UNSUPPORTED + ["Tr", "Tf"]) if chance(rng, 0.7) else pick(rng, MTL_FIELDS)
        lines.insert(at, w + pick(rng, args))
        yield "mtl", "\n".join(lines) + ("\n" if chance(rng, 0.7) else "")


def late_faults(rng, where):
    """Every kind of fault a long way down: (kind, text)."""
    obj = ["v 1 2", "v 1 2\n", "v", "v 1 x 3\n", "v 1 2 3 4 5\n", "vt", "vt\n", "vt x\n", "vn 1 2", "vn 1 2\n", "p", "p\n", "p x\n", "p 9\n", "l", "l\n",
           "l 1", "l 1\n", "l 1 x\n", "l 1 1/1\n", "f", "f 1 1\n", "f 1 1", "f 1 1 x\n", "f 1 1 1/1/1/1\n", "f 1 1 9\n", "f 1 1 1/1\n", "f 1 1 /\n",
           "s", "s\n", "s x\n", "s 1 1\n", "usemtl", "usemtl\n", "usemtl a b\n", "o", "o\n", "o a b\n", "x", "x\n", "mtllib a\n", "g a\nx\n", "p 1\nx\n",
           "p 1 x", "f 1 1 1\n\np 7", "l 1 1\n# c\nv 1\n", "g a b c\nv\n", "o b\np 1\n", "o b\nv 1 2 3\np 1\n"]
    mtl = ["newmtl", "newmtl\n", "newmtl a b\n", "x\n", "Ka", "Ka\n", "Ka 1 2", "Ka 1 2\n", "Kd 1 x 2\n", "Ks 1 2 3 4\n", "Ns", "Ns\n", "Ns x\n", "Ns 1 2\n",
           "d", "d\n", "Ni x", "illum", "illum\n", "illum 3\n", "illum x\n", "illum 1 1\n", "map_Kd", "map_Kd\n", "map_Kd a b\n", "bump", "bump\n", "disp\n",
           "newmtl b\nKe 1", "newmtl b\n\nx", "Tr 1\n"]
    for n in where:
        for kind, pre, faults in (("obj", "v 1 2 3\nvt 1\n", obj), ("mtl", "newmtl q\n", mtl)):
            for f in faults if n < 20000 else [pick(rng, faults)]:
                fill = pick(rng, ["\n" * n, "\r\n" * n, "#\n" * n, "\r" * n, " \n" * n])
                yield kind, pre + fill + f


def similar_numerals(rng, n):
    """Long numerals that are alike, next to each other: (kind, text)."""
    for _ in range(n):
        k = rng.choice([6, 11, 13, 17, 18, 20, 30])
        body = "".join(pick(rng, "0123456789") for _ in range(k))

        def variant():
            j = rng.randrange(6)
            d = pick(rng, "123456789")
            if j == 0:
                return d + "." + body
            if j == 1:
                return d + "0." + body
            if j == 2:
                return "0." + body + d
            if j == 3:
                i = rng.randrange(k)
                return "0." + body[:i] + d + body[i + 1:]
            if j == 4:
                i = rng.randrange(1, k)
                return pick(rng, ["", "-"]) + body[:i] + "." + body[i:]
            return "0." + body + "e" + pick(rng, ["", "-"]) + d
        ws = [variant() for _ in range(12)]
        yield "obj", "v %s %s %s\nv %s %s %s %s\nvt %s %s\nvn %s %s %s\n" % tuple(ws)
        yield "mtl", "newmtl a\nKa %s %s %s\nKd %s %s %s\nNs %s\nnewmtl b\nNs %s\nd %s\nKe %s %s %s\n" % tuple(ws)


_INT = re.compile(r"[+-]?[0-9]+\Z")
_DEC = re.compile(r"[+-]?[0-9]*\.?[0-9]+(?:[eE][+-]?[0-9]+)?\Z")
_NUMERIC = {"v", "vt", "vn", "Ka", "Kd", "Ks", "Ke", "Ns", "d", "Ni"}
_NAMED = {"o", "g", "usemtl", "mtllib", "newmtl"}
_MAPS = ["map_Ka", "map_Kd", "map_Ks", "map_Ke", "map_Ns", "map_Bump", "disp", "map_d", "decal"]


def near_number(rng, w):
    """A numeral that denotes the same double, the next one, or another."""
    try:
        x = float(w)
    except ValueError:
        return "1"
    k = rng.randrange(12)
    if k == 0:
        return "%r" % x
    if k == 1:
        return repr(math.nextafter(x, math.inf))
    if k == 2:
        return repr(math.nextafter(x, -math.inf))
    if k == 3:
        return repr(-x)
    if k == 4:
        return pick(rng, ["0", "-0", "0.0", "-0.0"])
    if k == 5:
        return "nan"
    if k == 6:
        return repr(x + pick(rng, [1e-7, 1e-9, 1e-12, 1e-16, 1e-4, 1e-300]))
    if k == 7:
        return repr(x * (1 + pick(rng, [1e-6, 1e-10, 1e-15])))
    if k == 8:
        return "%.30e" % x
    if k == 9:
        return pick(rng, ["inf", "-inf", "1e400", "5e-324", "-5e-324"])
    if k == 10:
        return "%.7g" % x
    return repr(x + 1)


def near_name(rng, w):
    k = rng.randrange(9)
    if k == 0:
        return w.swapcase()
    if k == 1:
        return w.upper()
    if k == 2:
        return w + pick(rng, "_.0aA-s")
    if k == 3:
        return w[:-1] or "b"
    if k == 4:
        return w[::-1]
    if k == 5:
        return w[:-1] + chr((ord(w[-1]) + 1) % 26 + 97)
    if k == 6:
        return w[:1] + pick(rng, "xyz") + w[2:]
    if k == 7:
        return "default"
    return pick(rng, "xyz") + w[1:]


def variant(rng, kind, text):
    """The text with one thing in it changed, or written otherwise."""
    lines = text.split("\n")
    for _ in range(8):
        i = rng.randrange(len(lines))
        if lines[i].split():
            break
    ws = lines[i].split()
    if not ws:
        return text + "\n"
    k = rng.random()
    if ws[0] in _NUMERIC and len(ws) > 1 and k < 0.75:
        j = rng.randrange(1, len(ws))
        ws[j] = near_number(rng, ws[j])
    elif ws[0] in _NAMED and len(ws) > 1 and k < 0.8:
        j = rng.randrange(1, len(ws))
        ws[j] = near_name(rng, ws[j])
    elif ws[0] in _MAPS and len(ws) > 1 and k < 0.85:
        if chance(rng, 0.5):
            ws[0] = pick(rng, _MAPS)
        else:
            ws[1] = near_name(rng, ws[1])
    elif ws[0] == "s" and k < 0.8:
        ws = ["s", pick(rng, ["off", "0", "1", "2", "10", "257", "65537", "4294967297"])]
    elif ws[0] == "illum" and k < 0.8:
        ws = ["illum", pick(rng, "012")]
    elif ws[0] in ("f", "l", "p") and len(ws) > 1 and k < 0.8:
        j = rng.randrange(1, len(ws))
        h = rng.randrange(5)
        if h == 0:
            ws[j] = ws[1 + j % (len(ws) - 1)]
        elif h == 1:
            ws[1:] = ws[2:] + ws[1:2]
        elif h == 2:
            ws[1:] = [w.split("/")[0] + w[w.rfind("/"):] if w.count("/") == 2 else w for w in ws[1:]]
        elif h == 3:
            ws[1:] = ["/".join(w.split("/")[:2]) if "//" not in w else w for w in ws[1:]]
        else:
            ws[0] = pick(rng, "flp")
    elif k < 0.9:
        j = rng.randrange(len(lines))
        lines[i], lines[j] = lines[j], lines[i]
        return "\n".join(lines)
    elif k < 0.95:
        return "\n".join(lines[:i] + lines[i + 1:])
    else:
        lines.insert(i, lines[i])
        return "\n".join(lines)
    lines[i] = " ".join(ws)
    return "\n".join(lines)
