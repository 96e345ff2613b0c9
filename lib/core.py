"""Building, running and judging: what every check has in common.

The code under test runs inside the harness process (harness/), is fed framed
texts and answers with one JSON line per text.  The judge is always a TLA+
trace specification (spec/*Trace.tla) run by TLC on those recorded answers;
nothing here decides whether an answer is right.
"""
import hashlib, json, os, re, select, shutil, struct, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, ".build")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = min(8, os.cpu_count() or 1)
FRAME_TIMEOUT = 40.0        # seconds without an answer before a call counts as hanging


class ToolError(Exception):
    """The check itself could not do its work (exit code 2)."""


# --------------------------------------------------------------------- build

def _cargo_env(where="target"):
    env = dict(os.environ)
    try:
        out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"],
                             capture_output=True, env=env).stdout
        for kv in out.split(b"\0"):
            if b"=" in kv:
                k, v = kv.split(b"=", 1)
                env[k.decode()] = v.decode(errors="replace")
    except OSError:
        pass
    env["CARGO_TARGET_DIR"] = os.path.join(BUILD, where)
    env["CARGO_NET_OFFLINE"] = "true"
    return env


def _repo():
    """Where the library under test is (as the harness has it)."""
    with open(os.path.join(VERIF, "harness", "Cargo.toml")) as f:
        return re.search(r'cgwavefront_obj *= *\{ *path *= *"([^"]+)"', f.read()).group(1)


def _forget(where):
    """Have cargo build the library anew unless its files are what they were
    in the last build (cargo itself goes by their times, which may be older)."""
    h = hashlib.sha256()
    repo = _repo()
    names = [os.path.join(repo, n) for n in ("Cargo.toml", "build.rs")]
    for d, _, files in os.walk(os.path.join(repo, "src")):
        names += [os.path.join(d, n) for n in files]
    for n in sorted(names):
        if os.path.isfile(n):
            with open(n, "rb") as f:
                b = f.read()
            h.update(b"%s %d\n" % (n.encode(), len(b)) + b)
    stamp = os.path.join(BUILD, where, "library.sha256")
    try:
        with open(stamp) as f:
            if f.read() == h.hexdigest():
                return
    except OSError:
        pass
    for profile in ("debug", "release"):
        fp = os.path.join(BUILD, where, profile, ".fingerprint")
        for n in os.listdir(fp) if os.path.isdir(fp) else []:
            if n.startswith("cgwavefront_obj-"):
                shutil.rmtree(os.path.join(fp, n), ignore_errors=True)
    os.makedirs(os.path.dirname(stamp), exist_ok=True)
    with open(stamp, "w") as f:
        f.write(h.hexdigest())


def build(profiles=("dev", "release")):
    """Build the harness against /repo's working tree.  Returns {profile: binary}."""
    os.makedirs(BUILD, exist_ok=True)
    _forget("target")
    bins = {}
    for p in profiles:
        cmd = ["cargo", "build", "--offline", "-q", "--manifest-path",
               os.path.join(VERIF, "harness", "Cargo.toml")]
        if p == "release":
            cmd.append("--release")
        r = subprocess.run(cmd, env=_cargo_env(), capture_output=True, text=True)
        if r.returncode != 0:
            raise ToolError("harness does not build (%s):\n%s" % (p, r.stderr[-4000:]))
        bins[p] = os.path.join(BUILD, "target", "debug" if p == "dev" else "release", "vharness")
    return bins


# -------------------------------------------------------------------- seeker

SEEKER = os.path.join(VERIF, "seeker")


def build_seeker(profiles=("dev", "release")):
    """The input search (seeker/), with branch counters in the library under
    test.  {} when it cannot be built: the search only adds inputs."""
    _forget("seek")
    env = _cargo_env("seek")
    env["RUSTC_WRAPPER"] = os.path.join(SEEKER, "instrument.sh")
    bins = {}
    for p in profiles:
        cmd = ["cargo", "build", "--offline", "-q", "--manifest-path", os.path.join(SEEKER, "Cargo.toml")]
        if p == "release":
            cmd.append("--release")
        r = subprocess.run(cmd, env=env, capture_output=True, text=True)
        if r.returncode != 0:
            return {}
        bins[p] = os.path.join(BUILD, "seek", "debug" if p == "dev" else "release", "seeker")
    return bins


def _frames(data):
    i = 0
    while i < len(data):
        e = data.index(b"\n", i)
        tag, n = data[i:e].split(b" ")
        yield tag.decode(), data[e + 1:e + 1 + int(n)]
        i = e + 1 + int(n)


def seek(bins, frames, kind, views, seed, seconds, processes=CORES, execs=10 ** 9):
    """Search for texts that reach new branches of the library or that it
    answers unlike the baseline.  Returns (novel, changed, stats): novel is
    [(kind, text)], changed [(kind, text before or None, text)]."""
    d = os.path.join(BUILD, "seekio-%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    src = os.path.join(d, "in")
    with open(src, "wb") as f:
        for tag, t in frames:
            b = t.encode("utf-8")
            f.write(b"%s %d\n" % (tag.encode(), len(b)) + b)
    env = dict(os.environ, LLVM_PROFILE_FILE="/dev/null")
    order = sorted(bins)

    def one(k):
        out, cur = os.path.join(d, "out%d" % k), os.path.join(d, "cur%d" % k)
        v = views[k % len(views)]
        cmd = [bins[order[k % len(order)]], str(seconds), str(execs), str(seed * 64 + k), kind, str(v), src, out, cur]
        try:
            p = subprocess.run(cmd, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=seconds + 60)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = 77
        if rc == 0 and os.path.exists(out):
            with open(out, "rb") as f:
                return list(_frames(f.read()))
        try:
            with open(cur, "rb") as f:
                b = f.read()
        except OSError:
            return []
        n = int.from_bytes(b[4:12], "little") if len(b) >= 12 else 0
        return [("D" + b[:3].decode(), b[12:12 + n])] if len(b) >= 12 + n >= 12 else []
    with ThreadPoolExecutor(processes) as ex:
        parts = list(ex.map(one, range(processes)))
    shutil.rmtree(d, ignore_errors=True)
    novel, changed = {}, {}
    stats = dict(executions=0, counters=0, reached=0, differing=0)
    for fr in parts:
        before = None
        for tag, b in fr:
            t = b.decode("utf-8", "replace")
            if tag == "stats":
                e, c, r, n = map(int, t.split())
                stats["executions"] += e
                stats["counters"] = max(stats["counters"], c)
                stats["reached"] = max(stats["reached"], r)
                stats["differing"] += n
            elif tag[0] == "N":
                novel.setdefault((tag[1:], t))
            elif tag[0] == "P":
                before = t
            else:
                changed.setdefault((tag[1:], t), before)
                before = None
    return list(novel), [(k, b, t) for (k, t), b in changed.items()], stats


# ------------------------------------------------------------------- harness

class _Proc:
    def __init__(self, binary):
        self.p = subprocess.Popen([binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL)
        self.buf = b""

    def lines(self, n, deadline):
        """Up to n answer lines; fewer if the process died or went silent."""
        got = []
        fd = self.p.stdout.fileno()
        while len(got) < n:
            i = self.buf.find(b"\n")
            if i >= 0:
                got.append(self.buf[:i])
                self.buf = self.buf[i + 1:]
                continue
            r, _, _ = select.select([fd], [], [], deadline)
            if not r:
                return got, "timeout"
            data = os.read(fd, 1 << 20)
            if not data:
                return got, "abort"
            self.buf += data
        return got, ""

    def kill(self):
        try:
            self.p.kill()
        except OSError:
            pass
        self.p.wait()


def _run_chunk(binary, jobs, stop):
    """jobs: list of (op, bytes).  Returns a list of raw JSON bytes (or None)."""
    out = [None] * len(jobs)
    i, hangs = 0, 0
    while i < len(jobs):
        proc = _Proc(binary)
        start = i

        def feed(proc=proc, start=start):
            try:
                w = proc.p.stdin
                for op, data in jobs[start:]:
                    w.write(b"%s %d\n" % (op.encode(), len(data)))
                    w.write(data)
                w.flush()
                w.close()
            except (OSError, ValueError):
                pass
        t = threading.Thread(target=feed, daemon=True)
        t.start()
        while i < len(jobs):
            got, how = proc.lines(1, FRAME_TIMEOUT)
            if got:
                out[i] = got[0]
                i += 1
                continue
            out[i] = json.dumps({"st": how}).encode()
            i += 1
            if how == "timeout":
                hangs += 1
            break
        proc.kill()
        t.join()
        proc.p.stdout.close()
        if hangs >= 3:
            stop.set()
        if stop.is_set():
            break
    return out


def run_harness(binary, jobs, workers=CORES):
    """Run jobs [(op, text)] on the harness, in order of answers."""
    data = [(op, t.encode("utf-8")) for op, t in jobs]
    stop = threading.Event()
    n = max(1, min(workers, (len(data) + 63) // 64))
    chunks = [data[k::n] for k in range(n)]
    with ThreadPoolExecutor(n) as ex:
        parts = list(ex.map(lambda c: _run_chunk(binary, c, stop), chunks))
    res = [None] * len(data)
    for k in range(n):
        res[k::n] = parts[k]
    return res


def run_alone(binary, jobs, bare=False):
    """Every job in a process of its own; bare: with no environment, elsewhere."""
    where = dict(env={}, cwd="/") if bare else {}

    def one(job):
        op, t = job
        d = t.encode("utf-8")
        try:
            p = subprocess.run([binary], input=b"%s %d\n" % (op.encode(), len(d)) + d, stdout=subprocess.PIPE,
                               stderr=subprocess.DEVNULL, timeout=FRAME_TIMEOUT, **where)
            ln = p.stdout.split(b"\n")[0]
            return ln if ln else json.dumps({"st": "abort"}).encode()
        except subprocess.TimeoutExpired:
            return json.dumps({"st": "timeout"}).encode()
    with ThreadPoolExecutor(CORES) as ex:
        return list(ex.map(one, jobs))


def run_parallel_frames(binary, groups):
    """Each group of (op, text) is parsed concurrently, one thread per text."""
    out = []
    for g in groups:
        blob = b"par %d\n" % len(g)
        for op, t in g:
            d = t.encode("utf-8")
            blob += b"%s %d\n" % (op.encode(), len(d)) + d
        try:
            p = subprocess.run([binary], input=blob, stdout=subprocess.PIPE,
                               stderr=subprocess.DEVNULL, timeout=FRAME_TIMEOUT * 3)
            lines = p.stdout.split(b"\n")[:-1]
            how = "abort"
        except subprocess.TimeoutExpired:
            lines, how = [], "timeout"
        while len(lines) < len(g):
            lines.append(json.dumps({"st": how}).encode())
        out.append(lines[:len(g)])
    return out


def run_storm(binary, group, ms):
    """(op, text) pairs, read by eight threads at once for a while."""
    blob = b"storm %d %d\n" % (len(group), ms)
    for op, t in group:
        d = t.encode("utf-8")
        blob += b"%s %d\n" % (op.encode(), len(d)) + d
    try:
        p = subprocess.run([binary], input=blob, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                           timeout=FRAME_TIMEOUT * 3 + ms / 1000)
        lines = p.stdout.split(b"\n")[:-1]
        how = "abort"
    except subprocess.TimeoutExpired:
        lines, how = [], "timeout"
    while len(lines) < len(group):
        lines.append(json.dumps({"st": how}).encode())
    return lines[:len(group)]


# -------------------------------------------------------------------- floats

_REAL = re.compile(r"[+-]?(?:(?:[0-9]+\.?[0-9]*|\.[0-9]+)(?:[eE][+-]?[0-9]+)?"
                   r"|[iI][nN][fF](?:[iI][nN][iI][tT][yY])?|[nN][aA][nN])\Z")
_SPLIT = re.compile(r"[ \t\\\r\n#]+")


def bits(word):
    x = float(word)
    return "nan" if x != x else struct.pack(">d", x).hex()


def float_table(text):
    """The double every real of the text denotes, bucketed by the last two
    characters.  Python's float() is the independent reference."""
    table = {}
    for w in set(_SPLIT.split(text)) | {"0", "1"}:
        if _REAL.match(w):
            table.setdefault(w[-2:], {})[w] = bits(w)
    return table


# ----------------------------------------------------------------------- TLC

def tlc(module, cfg, env=None, workers=1, heap="2g", extra=(), timeout=800, cwd=SPEC, stack="64m"):
    """Run TLC; returns its output.  Anything but a clean finish is a ToolError."""
    meta = os.path.join(BUILD, "tlc", "%s-%d-%d" % (module, os.getpid(), threading.get_ident()))
    os.makedirs(meta, exist_ok=True)
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
           "-Xmx" + heap, "-Xss" + stack, "-XX:TieredStopAtLevel=4",
           "-Djava.io.tmpdir=" + meta,
           "-cp", TLA, "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
           "-noGenerateSpecTE", "-config", cfg, *extra, module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC did not finish %s in %d s" % (module, timeout))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def stats(text):
    m = re.findall(r"^(\d+) states generated, (\d+) distinct states found", text, re.M)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def parse_tla(s, pos=0):
    """A small reader for the TLA+ values TLC prints: tuples, sets, records,
    strings, integers and booleans."""

    def ws():
        nonlocal pos
        while pos < len(s) and s[pos].isspace():
            pos += 1

    def value():
        nonlocal pos
        ws()
        if s.startswith("<<", pos):
            pos += 2
            r = seq(">>")
            return r
        c = s[pos]
        if c == "{":
            pos += 1
            return seq("}")
        if c == "[":
            pos += 1
            r = {}
            while True:
                ws()
                if s[pos] == "]":
                    pos += 1
                    return r
                m = re.compile(r"(\w+) \|-> ").match(s, pos)
                pos = m.end()
                r[m.group(1)] = value()
                ws()
                if s[pos] == ",":
                    pos += 1
        if c == '"':
            m = re.compile(r'"((?:[^"\\]|\\.)*)"', re.S).match(s, pos)
            pos = m.end()
            return m.group(1)
        m = re.compile(r"-?\d+|TRUE|FALSE").match(s, pos)
        pos = m.end()
        t = m.group(0)
        return t == "TRUE" if t in ("TRUE", "FALSE") else int(t)

    def seq(close):
        nonlocal pos
        r = []
        while True:
            ws()
            if s.startswith(close, pos):
                pos += len(close)
                return r
            r.append(value())
            ws()
            if s[pos] == ",":
                pos += 1
    return value()


class Judged:
    """What a trace specification said about a set of cases."""

    def __init__(self):
        self.mismatches = []      # dicts: id, aspects, line, phase, fault, seen
        self.tally = {}
        self.cases = 0
        self.states = 0
        self.transitions = 0

    def add(self, other):
        self.mismatches += other.mismatches
        for k, v in other.tally.items():
            self.tally[k] = self.tally.get(k, 0) + v
        self.cases += other.cases
        self.states += other.states
        self.transitions += other.transitions


def _judge_shard(module, records, tag, timeout):
    d = os.path.join(BUILD, "cases")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%d-%s.ndjson" % (module, os.getpid(), tag))
    with open(path, "w") as f:
        for r in records:
            f.write(json.dumps(r))
            f.write("\n")
    size = os.path.getsize(path)
    heap = "%dm" % max(700, min(6000, 400 + size // 40000))
    try:
        rc, out = tlc(module, module + ".cfg", {"CASES": path}, heap=heap, timeout=timeout, stack="512m")
    finally:
        os.unlink(path)
    j = Judged()
    done = None
    for m in re.finditer(r'^<<\s*"(MISMATCH|TALLY|READ)"', out, re.M):
        v = parse_tla(out, m.start())
        if v[0] == "MISMATCH":
            j.mismatches.append(dict(id=v[1], aspects=set(v[2]), line=v[3], phase=v[4],
                                     fault=v[5], seen=v[6:]))
        elif v[0] == "TALLY":
            j.tally = v[1]
        elif v[0] == "READ":
            done = v[1]
    if rc != 0 or done != len(records):
        raise ToolError("TLC judged %s of %d cases of %s (rc %d):\n%s"
                        % (done, len(records), module, rc, out[-3000:]))
    j.cases = done
    j.states, j.transitions = stats(out)[1], stats(out)[0]
    return j


def judge(module, records, timeout=780):
    """Validate recorded cases against a trace specification, in parallel shards."""
    total = Judged()
    if not records:
        return total
    weight = lambda r: 40 + len(r.get("s", "")) + len(r.get("t", ""))
    n = max(1, min(CORES, len(records), 1 + sum(map(weight, records)) // 20000))
    shards, load = [[] for _ in range(n)], [0] * n
    for r in sorted(records, key=weight, reverse=True):
        k = load.index(min(load))
        shards[k].append(r)
        load[k] += weight(r)
    shards = [sorted(s, key=lambda r: r["id"]) for s in shards if s]
    with ThreadPoolExecutor(len(shards)) as ex:
        for j in ex.map(lambda a: _judge_shard(module, a[1], str(a[0]), timeout), enumerate(shards)):
            total.add(j)
    return total
