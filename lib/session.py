"""One run of one check."""
import json, os, random, re, sys, time
from concurrent.futures import ThreadPoolExecutor

import core, gen, owners, plan

REPLAYS = os.path.join(core.VERIF, "replays")
EVIDENCE = os.path.join(core.VERIF, "evidence")
KNOWN = os.path.join(core.VERIF, "known_findings.txt")


class Found:
    """A case whose answer the specification does not allow."""

    def __init__(self, kind, aspects, owners_, data, size, note=""):
        self.kind, self.aspects, self.owners, self.data, self.size, self.note = kind, aspects, owners_, data, size, note


class Session:
    def __init__(self, pid, tier, seed, verbose=False):
        self.pid, self.tier, self.seed, self.verbose = pid, tier, seed, verbose
        self.rng = plan.rng_for(pid, seed)
        self.found = []
        self.states = self.transitions = self.traces = 0
        self.model_states = self.model_transitions = self.model_texts = 0
        self.tally, self.families, self.samples = {}, {}, []
        self.models = []
        self.calls_made = 0
        self.search = {}
        self.t0 = time.time()

    def log(self, *a):
        if self.verbose:
            print("[%6.1f]" % (time.time() - self.t0), *a, flush=True)

    # -------------------------------------------------------------- models

    def explore(self):
        """TLC on the bounded families; returns [(kind, text)]."""
        todo = plan.MODELS[self.pid]
        jobs = []
        for module, profile, q, t in todo:
            n = q if self.tier == "quick" else t
            jobs.append((module, profile, n))

        def run(job):
            module, profile, n = job
            workers = 2 if self.tier == "quick" else 4
            rc, out = core.tlc(module, module + ".cfg", {"PROFILE": profile, "MAXFRAGS": str(n)}, workers=workers,
                               heap="3g" if self.tier == "quick" else "6g", timeout=700 if self.tier == "quick" else 7200)
            if rc != 0 or "No error has been found" not in out:
                raise core.ToolError("the specification fails its own invariants on %s/%s:\n%s" % (module, profile, out[-3000:]))
            texts = set()
            for ln in out.split("\n"):
                if ln.startswith('"T'):
                    s = ln.rstrip()[2:-1].replace('\\"', '"').replace("\\\\", "\\")
                    texts.add(json.loads(s))
            gen_, dist = core.stats(out)
            return job, sorted(texts), gen_, dist
        result = []
        with ThreadPoolExecutor(4 if self.tier == "quick" else 2) as ex:
            for (module, profile, n), texts, g, d in ex.map(run, jobs):
                kind = "obj" if module == "ObjModel" else "mtl"
                result += [(kind, t) for t in texts]
                self.model_states += d
                self.model_transitions += g
                self.model_texts += len(texts)
                self.models.append({"module": module, "family": profile, "fragments": n, "texts": len(texts), "states": d})
                self.log("model", module, profile, n, len(texts), "texts", d, "states")
        return result

    # --------------------------------------------------------------- texts

    def answers(self, jobs):
        """Run (op, text) jobs in both profiles: {profile: [answer]}."""
        res = {}
        for p, b in self.bins.items():
            raw = core.run_harness(b, jobs)
            res[p] = raw
        return res

    def texts(self, kind, families):
        """Validate single readings."""
        jobs, names = [], []
        seen = set()
        for name, ts in families:
            for t in ts:
                if t not in seen:
                    seen.add(t)
                    jobs.append((kind, t))
                    names.append(name)
        if not jobs:
            return
        res = self.answers(jobs)
        records, back = [], {}
        for i, (_, t) in enumerate(jobs):
            outs = {}
            for p in res:
                if res[p][i] is not None:
                    outs.setdefault(res[p][i], p)
            for raw, p in outs.items():
                r = json.loads(raw)
                n = len(records)
                records.append(dict(id=n, s=t, r=r, fl=core.float_table(t) if r["st"] == "ok" else {}))
                back[n] = (t, r, p, names[i])
            self.families[names[i]] = self.families.get(names[i], 0) + 1
        self.log("ran", len(jobs), kind, "texts; judging", len(records))
        module = "ObjTrace" if kind == "obj" else "MtlTrace"
        j = self.judge(module, records)
        by = {}
        for m in j.mismatches:
            e = by.setdefault(m["id"], dict(aspects=set(), line=m["line"], fault=m["fault"]))
            e["aspects"] |= m["aspects"]
            e["line"], e["fault"] = m["line"], m["fault"]
        for n, e in by.items():
            t, r, p, name = back[n]
            f = owners.obj if kind == "obj" else owners.mtl
            self.add(Found(kind, e["aspects"], f(e["aspects"], t, r, e["line"], e["fault"]),
                           dict(op=kind, text=t, answer=r, profile=p, family=name, spec_line=e["line"], spec_fault=e["fault"]), len(t)))
        for i in self.rng.sample(range(len(records)), min(3, len(records))):
            self.samples.append({"kind": kind, "family": back[i][3], "text": back[i][0][:300], "answer": back[i][1]["st"]})

    def judge(self, module, records):
        j = core.judge(module, records, timeout=700 if self.tier == "quick" else 7000)
        self.states += j.states
        self.transitions += j.transitions
        self.traces += j.cases
        for k, v in j.tally.items():
            key = module + "." + k
            self.tally[key] = self.tally.get(key, 0) + v
        self.log("judged", module, j.cases, "cases", j.states, "states", len(j.mismatches), "mismatches")
        return j

    def add(self, f):
        self.found.append(f)

    # --------------------------------------------------------------- views

    def views(self, families, op="objx", tables=None):
        jobs, names, seen = [], [], set()
        for name, ts in families:
            for t in ts:
                if t not in seen:
                    seen.add(t)
                    jobs.append((op, t))
                    names.append(name)
        if not jobs and not tables:
            return
        res = self.answers(jobs) if jobs else {}
        items = []
        for i, (_, t) in enumerate(jobs):
            outs = {}
            for p in res:
                if res[p][i] is not None:
                    outs.setdefault(res[p][i], p)
            for raw, p in outs.items():
                r = json.loads(raw)
                if r["st"] == "err":
                    continue
                items.append((t, r, p, names[i]))
            self.families[names[i]] = self.families.get(names[i], 0) + 1
        back_jobs, where = [], []
        for n, (t, r, p, _) in enumerate(items):
            for d in r.get("dis", []) if op == "objx" else []:
                back_jobs.append(("obj", d["rt"]))
                where.append(n)
        backs = core.run_harness(self.bins["dev"], back_jobs) if back_jobs else []
        rts = {}
        for n, raw in zip(where, backs):
            rts.setdefault(n, []).append(json.loads(raw) if raw is not None else {"st": "err", "line": 0, "kind": "?"})
        records = []
        for n, (t, r, p, _) in enumerate(items):
            shown = " ".join(" ".join(d["v"] + d["vt"] + d["vn"]) for d in r.get("dis", []))
            records.append(dict(id=n, s=t, r=r, rt=rts.get(n) or [{}] * len(r.get("dis", [])), fl=core.float_table(shown)))
        asked = tables or [("types", "")]
        if op == "objx" and not tables:
            asked += [("shows", t) for t in plan.shown_numbers(self.rng, self.tier)]
        self.families["tables of forms and of shown numbers"] = len(asked)
        tables = [(o, t, raw, p) for p in ("dev", "release") for (o, t), raw in zip(asked, core.run_harness(self.bins[p], asked))]
        for o, t, raw, p in tables:
            records.append(dict(id=len(records), s="", r=json.loads(raw) if raw is not None else {"st": "crash"}, rt=[], fl={}))
        j = self.judge("ViewTrace", records)
        for m in j.mismatches:
            n = m["id"]
            if n < len(items):
                o, (t, r, p, name) = op, items[n]
            else:
                o, t, _, p = tables[n - len(items)]
                r, name = {}, o
            self.add(Found("view", m["aspects"], owners.view(m["aspects"]),
                           dict(op=o, text=t, answer=r, profile=p, family=name, object=m["line"]), len(t)))
        for n in self.rng.sample(range(len(items)), min(2, len(items))):
            self.samples.append({"kind": "view", "text": items[n][0][:300],
                                 "display": [d["sum"][:200] for d in items[n][1].get("dis", [])][:1]})

    # --------------------------------------------------------------- pairs

    def pairs(self, cases):
        if not cases:
            return
        texts = {}
        for rel, kind, s, t, u in cases:
            for x in (s, t, u):
                if x is not None:
                    texts.setdefault((kind, x), None)
        keys = list(texts)
        # every other run of pairs is in the other profile; that the profiles
        # agree is judged elsewhere (C17, and all single readings)
        half = len(keys) // 2
        raw = core.run_harness(self.bins["dev"], keys[:half]) + core.run_harness(self.bins["release"], keys[half:])
        for key, r in zip(keys, raw):
            texts[key] = json.loads(r) if r is not None else None
        records, back = [], []
        for rel, kind, s, t, u in cases:
            r, q = texts[(kind, s)], texts[(kind, t)]
            w = texts[(kind, u)] if u is not None else None
            if r is None or q is None or (u is not None and w is None):
                continue
            if rel == "compose" and not (r["st"] == "ok" and w["st"] == "ok" and (s == "" or s.endswith("\n"))):
                continue
            rec = dict(id=len(records), rel=rel, s=s, t=t, r=r, q=q)
            if u is not None:
                rec.update(u=u, w=w)
            records.append(rec)
            back.append((rel, kind, s, t, u))
            self.families["pairs/" + rel] = self.families.get("pairs/" + rel, 0) + 1
        self.log("pairs", len(records))
        j = self.judge("PairTrace", records)
        for m in j.mismatches:
            rel, kind, s, t, u = back[m["id"]]
            if "unrelated" in m["aspects"]:
                raise core.ToolError("generated texts are not in relation %s: %r %r" % (rel, s, t))
            rec = records[m["id"]]
            self.add(Found("pair", m["aspects"], owners.pair(m["aspects"]),
                           dict(op=kind, rel=rel, text=s, other=t, tail=u, answer=rec["r"], other_answer=rec["q"]), len(s) + len(t)))
        for n in self.rng.sample(range(len(back)), min(2, len(back))):
            self.samples.append({"kind": "pair", "rel": back[n][0], "s": back[n][2][:200], "t": back[n][3][:200]})

    # ------------------------------------------------------------ equality

    def equality(self, cases, alone=()):
        """cases: (kind, s, t); alone: (kind, s), against what its parts may be altered to."""
        cases = list(dict.fromkeys(cases)) + [(kind, s, None) for kind, s in dict.fromkeys(alone)] + [("colors", "", None)]
        jobs = [(kind if kind == "colors" else "alter" + kind, s) if t is None else
                ("eq" + kind, "%d\n%s%s" % (len(s.encode("utf-8")), s, t)) for kind, s, t in cases]
        res = self.answers(jobs)
        records, back = [], []
        for i, case in enumerate(cases):
            for raw in {res[p][i] for p in res if res[p][i] is not None}:
                r = json.loads(raw)
                if r["st"] == "err":
                    continue
                if r["st"] != "eq":
                    r = {"st": r["st"]}
                records.append(dict(r, id=len(records)))
                back.append((case, r))
            name = ("equality/" if case[2] is not None else "altered/") + case[0]
            self.families[name] = self.families.get(name, 0) + 1
        j = self.judge("EqTrace", records)
        for m in j.mismatches:
            (kind, s, t), r = back[m["id"]]
            data = dict(op=kind, text=s, other=t, eq=[r.get("eq"), r.get("qe"), r.get("ne"), r.get("copy")],
                        items=[i for i in r.get("items", []) if "equal-" + i["k"] in m["aspects"]][:20])
            self.add(Found("equality", m["aspects"], owners.equality(m["aspects"]), data, len(s) + len(t or "")))
        for n in self.rng.sample(range(len(back)), min(3, len(back))):
            (kind, s, t), r = back[n]
            self.samples.append({"kind": "equality", "s": s[:150], "t": (t or "")[:150], "eq": r.get("eq")})

    # --------------------------------------------------------------- calls

    def calls(self, texts):
        """Histories of calls: every entry point, several processes, orders,
        profiles and threads."""
        empty = {k: (k, "") for k in ("obj", "mtl")}
        ts = list(dict.fromkeys(list(empty.values()) + texts))
        events = {t: {} for t in ts}
        source = {}

        def log(t, how, a):
            # the same call with the same answer need not be told twice
            key = (how, a)
            events[t][key] = events[t].get(key, 0) + 1
            self.calls_made += 1

        def record(t, r, how):
            r = json.loads(r)
            if "via" in r:
                for h, dig in r["via"]:
                    # what is left of a text read to its end is the empty text
                    log(empty[t[0]] if h == "again" else t, "%s %s" % (how, h), dig)
                    if h == "again":
                        source.setdefault((t[0], dig), t)
            else:
                log(t, how, r.get("dig", r.get("st", "?")))

        def history(binary, order, op, how):
            """All calls in one process."""
            raw = core.run_harness(binary, [(k + op, t) for k, t in order], workers=1)
            for t, r in zip(order, raw):
                if r is not None:
                    record(t, r, how)
        for p, b in sorted(self.bins.items()):
            # every text in a process of its own: no history at all
            for t, r in zip(ts, core.run_alone(b, [(k + "d", t) for k, t in ts], bare=p == "release")):
                record(t, r, p + " alone")
            order = list(ts)
            self.rng.shuffle(order)
            history(b, order, "w", p)
            # similar texts one after the other, each twice, there and back
            twice = [x for x in ts for _ in range(2)]
            history(b, twice + twice[::-1], "d", p + " run")
            self.rng.shuffle(order)
            history(b, order, "d", p + " shuffled")
            # overlapping calls
            self.rng.shuffle(order)
            groups = [order[i:i + 16] for i in range(0, len(order), 16)]
            for g, lines in zip(groups, core.run_parallel_frames(b, groups)):
                for t, r in zip(g, lines):
                    record(t, r, p)
            # storms: few texts, many readings
            short = [t for t in order if len(t[1]) < 3000]
            for times, n, ms in plan.STORMS[self.tier]:
                for _ in range(times):
                    g = self.rng.sample(short, min(n, len(short)))
                    for t, r in zip(g, core.run_storm(b, g, ms)):
                        record(t, r, p)
        # one history per block of texts; order within it shuffled, since any
        # order of overlapping calls must do
        records, blocks = [], [ts[i:i + 40] for i in range(0, len(ts), 40)]
        for n, blk in enumerate(blocks):
            ev = []
            for i, t in enumerate(blk):
                for how, a in events[t]:
                    ev.append(dict(x=i + 1, how=how, a=a))
            self.rng.shuffle(ev)
            records.append(dict(id=n, n=len(blk), ev=ev))
        j = self.judge("CallTrace", records)
        self.families["call histories"] = len(records)
        self.families["texts called"] = len(ts)
        self.families["calls"] = self.calls_made
        bad = {}
        for m in j.mismatches:
            t = blocks[m["id"]][m["seen"][0] - 1]
            bad.setdefault(t, set()).add(m["phase"])
        for (k, t), hows in bad.items():
            data = dict(op=k, text=t, hows=sorted(hows), events=[[h, a, n] for (h, a), n in events[(k, t)].items()])
            i = ts.index((k, t))
            data["near"] = [x for q, x in ts[max(0, i - 2):i + 3] if q == k]
            if t == "":      # texts after which a parser had something left
                data["near"] = [x for (q, _), (_, x) in source.items() if q == k][:6]
            self.add(Found("call", {"impure"}, {"C17"}, data, len(t)))
        self.samples.append({"kind": "history", "texts": len(blocks[0]), "first events": records[0]["ev"][:4]})

    # ---------------------------------------------------------------- all

    def live(self):
        """The reader always has a next step and always ends (C01)."""
        for module, profile, n in (("ObjModel", "names", 3), ("ObjModel", "lexnum", 3), ("MtlModel", "struct", 3)):
            rc, out = core.tlc(module, module + "Live.cfg", {"PROFILE": profile, "MAXFRAGS": str(n)}, workers=4, heap="3g")
            if rc != 0 or "No error has been found" not in out:
                raise core.ToolError("liveness fails in %s/%s:\n%s" % (module, profile, out[-3000:]))
            g, d = core.stats(out)
            self.model_states += d
            self.model_transitions += g
            self.models.append({"module": module, "family": profile, "fragments": n, "states": d, "liveness": True})

    def seek(self, start):
        """Texts that reach branches of the library no other text reached, and
        texts the library answers unlike its baseline: more inputs, no more."""
        bins = core.build_seeker()
        if not bins:
            self.log("no search")
            return [], []
        kind = plan.SEEK_KIND.get(self.pid, "obj")
        novel, changed, self.search = core.seek(bins, plan.seek_frames(self.rng, start), kind, plan.SEEK_VIEWS.get(self.pid, (0,)),
                                                self.seed, plan.SEEK[self.tier])
        self.log("search", self.search, len(novel), "novel", len(changed), "changed")
        self.rng.shuffle(novel)
        self.rng.shuffle(changed)
        changed.sort(key=lambda c: len(c[2]) > 1500)
        return novel[:plan.NOVEL[self.tier]], changed[:plan.CHANGED[self.tier]]

    def run(self):
        self.bins = core.build()
        self.log("built")
        model = self.explore()
        if self.pid == "C17":
            rc, out = core.tlc("CallModel", "CallModel.cfg", workers=2)
            if rc != 0:
                raise core.ToolError("CallModel fails:\n" + out[-2000:])
            g, d = core.stats(out)
            self.model_states += d
            self.model_transitions += g
            self.models.append({"module": "CallModel", "states": d})
        if self.pid == "C20":
            rc, out = core.tlc("EqModel", "EqModel.cfg", workers=4)
            if rc != 0:
                raise core.ToolError("EqModel fails:\n" + out[-2000:])
            g, d = core.stats(out)
            self.model_states += d
            self.model_transitions += g
            self.models.append({"module": "EqModel", "states": d})
        if self.pid == "C01":
            self.live()
        rng = self.rng
        single = self.pid not in ("C11", "C16", "C17", "C18", "C19", "C20")
        fams = {"obj": [], "mtl": []}
        if single:
            for kind in fams:
                fams[kind].append(("model", [t for k, t in model if k == kind]))
            if self.pid not in ("C14", "C15"):
                fams["obj"] += plan.obj_texts(self.pid, rng, self.tier)
            fams["mtl"] += plan.mtl_texts(self.pid, rng, self.tier)
        views = plan.view_texts(self.pid, rng, self.tier)
        if views and not single:
            views.insert(0, ("model", [t for k, t in model if k == "obj"]))
        pairs = plan.pair_texts(self.pid, rng, self.tier, model)
        calls = plan.call_texts(rng, self.tier, model) if self.pid == "C17" else []
        same = plan.eq_texts(rng, self.tier, model) if self.pid == "C20" else []
        start = [(k, t) for k in fams for _, ts in fams[k] for t in ts] + [("obj", t) for _, ts in views for t in ts]
        novel, changed = self.seek(start + [(c[1], c[2]) for c in pairs] + calls + [c[:2] for c in same])
        if single:
            for kind in fams:
                fams[kind] += [("novel", [t for k, t in novel if k == kind]),
                               ("changed", [t for k, _, t in changed if k == kind])]
                self.texts(kind, fams[kind])
        if views:
            self.views(views + [("novel", [t for k, t in novel if k == "obj"]), ("changed", [t for k, _, t in changed if k == "obj"])])
            self.views(plan.made_texts(self.pid, rng, self.tier), "objm")
        for k, t in novel:
            pairs += plan.pairs_of(self.pid, rng, k, t, 1)
        for k, _, t in changed:
            pairs += plan.pairs_of(self.pid, rng, k, t, 8)
        self.pairs(pairs)
        if self.pid == "C17":
            more = novel[::3]
            for k, before, t in changed:
                more += ([(k, before)] if before is not None else []) + [(k, t)]
            self.calls(calls + more)
        if self.pid == "C20":
            for k, t in novel:
                same += [(k, t, t), (k, t, gen.variant(rng, k, t)), (k, t, gen.relayout(rng, t))]
            for k, before, t in changed:
                same += [(k, t, t), (k, t, gen.relayout(rng, t))] + [(k, t, gen.variant(rng, k, t)) for _ in range(3)]
                if before is not None:
                    same += [(k, before, t), (k, t, before)]
            alone = plan.alter_texts(rng, self.tier) + [(k, t) for k, t in novel[::4] if len(t) < 2000] + [
                (k, t) for k, _, t in changed if len(t) < 3000]
            self.equality(same, alone)
        if self.traces == 0:
            raise core.ToolError("nothing was validated")


NEED = {   # what the judged cases must have exercised, or the run is vacuous
    "C01": ["ObjTrace.done", "ObjTrace.fail", "MtlTrace.done", "MtlTrace.fail"],
    "C02": ["ObjTrace.elem", "ObjTrace.fail"], "C03": ["ObjTrace.elem"], "C04": ["ObjTrace.elem", "ObjTrace.fail"],
    "C05": ["ObjTrace.v", "ObjTrace.vt", "ObjTrace.vn"], "C06": ["ObjTrace.v", "MtlTrace.set"],
    "C07": ["ObjTrace.group", "ObjTrace.elem"], "C08": ["ObjTrace.smooth", "ObjTrace.elem"],
    "C09": ["ObjTrace.geo", "ObjTrace.elem"], "C10": ["ObjTrace.open", "ObjTrace.lib", "PairTrace.compose"],
    "C11": ["PairTrace.layout"], "C12": ["ObjTrace.done", "ObjTrace.fail"], "C13": ["ObjTrace.fail", "MtlTrace.fail"],
    "C14": ["MtlTrace.material", "MtlTrace.set"], "C15": ["MtlTrace.fail", "MtlTrace.done"],
    "C16": ["ViewTrace.objects", "ViewTrace.texts"], "C17": ["CallTrace.calls"], "C18": ["PairTrace.extend"],
    "C19": ["ViewTrace.lookups"], "C20": ["EqTrace.equal", "EqTrace.unequal", "EqTrace.errors", "EqTrace.items"],
}


def evidence(s, violations):
    os.makedirs(EVIDENCE, exist_ok=True)
    cov = {
        "states": s.model_states + s.states,
        "transitions": s.model_transitions + s.transitions,
        "traces_validated_against_impl": s.traces,
        "samples": s.samples[:8],
        "model": s.models,
        "model_states": s.model_states,
        "model_texts": s.model_texts,
        "trace_states": s.states,
        "cases_by_family": s.families,
        "specification_outputs_compared": s.tally,
        "input_search": s.search,
        "exhaustive": False,
    }
    doc = {
        "property": s.pid, "tier": s.tier, "seed": s.seed, "level": "model_checking", "coverage": cov,
        "assumptions": [
            "TLC, the Rust compiler and standard library, and the conformance harness's projection are trusted",
            "the double a decimal numeral denotes is taken from Python's float()",
            "beyond TLC's bounded families the texts are a seeded sample",
        ],
        "wall_s": round(time.time() - s.t0, 2),
        "violations": violations,
    }
    path = os.path.join(EVIDENCE, s.pid + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(doc, f, indent=1)
    os.replace(path + ".tmp", path)


def check(pid, tier, seed, verbose=False):
    if pid not in plan.MODELS:
        raise core.ToolError("no such property: %s" % pid)
    s = Session(pid, tier, seed, verbose)
    s.run()
    mine = [f for f in s.found if pid in f.owners]
    other = [f for f in s.found if pid not in f.owners]
    if verbose:
        for f in sorted(other, key=lambda f: f.size)[:5]:
            print("  (other) ", sorted(f.aspects), sorted(f.owners), repr(f.data.get("text", ""))[:200])
    if not mine:
        for need in NEED[pid]:
            if not s.tally.get(need):
                raise core.ToolError("vacuous: no %s was exercised" % need)
    evidence(s, len(mine))
    if not mine:
        print("OK property=%s tier=%s traces=%d states=%d wall=%.1fs%s" % (
            pid, tier, s.traces, s.model_states + s.states, time.time() - s.t0,
            " (%d disagreements that concern other properties)" % len(other) if other else ""))
        return 0
    os.makedirs(REPLAYS, exist_ok=True)
    mine.sort(key=lambda f: f.size)
    f = mine[0]
    path = os.path.join(REPLAYS, "%s.json" % pid)
    with open(path, "w") as h:
        json.dump(dict(property=pid, kind=f.kind, aspects=sorted(f.aspects), data=f.data, count=len(mine)), h, indent=1)
    for g in mine[:3]:
        print("disagreement: %s on %s" % (", ".join(sorted(g.aspects)), repr(g.data.get("text", ""))[:300]))
        a = g.data.get("answer")
        if a:
            print("   library says: %s" % json.dumps(a)[:400])
    print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1


def replay(path):
    """Run a recorded case again and have it judged again."""
    with open(path) as h:
        doc = json.load(h)
    pid, d = doc["property"], doc["data"]
    s = Session(pid, "quick", 1)
    s.bins = core.build()
    if doc["kind"] in ("obj", "mtl"):
        s.texts(doc["kind"], [("replay", [d["text"]])])
    elif doc["kind"] == "view":
        if d["op"] in ("types", "shows"):
            s.views([], "objx", [(d["op"], d["text"])])
        else:
            s.views([("replay", [d["text"]])], d["op"])
    elif doc["kind"] == "equality":
        s.equality([(d["op"], d["text"], d["other"])] if d["other"] is not None else [],
                   [(d["op"], d["text"])] if d["other"] is None and d["op"] != "colors" else [])
    elif doc["kind"] == "pair":
        s.pairs([(d["rel"], d["op"], d["text"], d["other"], d["tail"])])
    else:
        s.calls([(d["op"], t) for t in d.get("near", []) + [d["text"]]])
    mine = [f for f in s.found if pid in f.owners]
    for f in mine:
        print("disagreement: %s on %s" % (", ".join(sorted(f.aspects)), repr(f.data.get("text", ""))[:300]))
    if mine:
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("OK property=%s: the recorded case is judged right now" % pid)
    return 0
