"""Check bookkeeping (violations, known findings, evidence) and the verdict campaign shared by
several checks: compile with the real C2PO, run on the real C monitor, judge with TLC."""
import json, os, random, sys, tempfile, time, shutil
import rig
import formula as fm

KNOWN = os.path.join(rig.VERIF, "known_findings.txt")


def load_known():
    """lines: finding: property=<id> key=<key> -- <what fails>"""
    res = {}
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            if ln.startswith("finding: "):
                head, _, what = ln[len("finding: "):].partition(" -- ")
                kv = dict(x.split("=", 1) for x in head.split())
                res[(kv["property"], kv["key"])] = what.strip()
    return res


class Check:
    def __init__(self, pid, level, rule=""):
        self.pid, self.level, self.rule = pid, level, rule
        self.t0 = time.time()
        self.nviol = 0
        self.cov = {}
        self.samples = []
        self.seen_known = set()
        self.known = load_known()
        self.assumptions = []
        self.rng = random.Random("%s/%s/%d" % (pid, rig.TIER, rig.SEED))
        self.repdir = os.path.join(rig.VERIF, "evidence", "replay-" + pid)
        shutil.rmtree(self.repdir, ignore_errors=True)

    def left(self, budget):
        return budget - (time.time() - self.t0)

    def add(self, **kw):
        for k, v in kw.items():
            self.cov[k] = self.cov.get(k, 0) + v

    def sample(self, s, n=4):
        if len(self.samples) < n:
            self.samples.append(s)

    def violation(self, what, key=None, files=None, **info):
        """A disagreement between the real system and the specification."""
        if key is not None and (self.pid, key) in self.known:
            if key not in self.seen_known:
                self.seen_known.add(key)
                print("KNOWN-FINDING: property=%s %s" % (self.pid, self.known[(self.pid, key)]), flush=True)
            return
        self.nviol += 1
        if self.nviol > int(os.environ.get("VERIF_SHOW", "5")):
            return
        d = os.path.join(self.repdir, str(self.nviol))
        os.makedirs(d, exist_ok=True)
        for name, body in (files or {}).items():
            with open(os.path.join(d, name), "wb" if isinstance(body, bytes) else "w") as f:
                f.write(body)
        with open(os.path.join(d, "violation.json"), "w") as f:
            json.dump(dict(property=self.pid, what=what, seed=rig.SEED, tier=rig.TIER, **info), f, indent=1, default=str)
        print("VIOLATION property=%s replay=%s" % (self.pid, os.path.join(d, "violation.json")), flush=True)
        print("  " + str(what)[:600], flush=True)

    def finish(self):
        ev = dict(property=self.pid, tier=rig.TIER, seed=rig.SEED, level=self.level,
                  coverage=dict(self.cov, samples=self.samples), assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 1), violations=self.nviol)
        if self.rule:
            ev["coverage"]["rule"] = self.rule
        os.makedirs(os.path.join(rig.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(rig.VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s: %s in %.0fs" % (self.pid, "VIOLATED" if self.nviol else "ok",
                                      {k: v for k, v in self.cov.items()}, time.time() - self.t0), flush=True)
        return 1 if self.nviol else 0


# ------------------------------------------------------------------ compiling
def newdir():
    return tempfile.mkdtemp(dir=rig.scratch())


_hung = [0]


def _compile(job):
    """job: dict(files={name: text}, argv=[...]) -> dict(dir, rc, out, err)"""
    d = newdir()
    for n, t in job["files"].items():
        with open(os.path.join(d, n), "w") as f:
            f.write(t)
    lim = job.get("timeout", 60)
    rc, o, e = rig.run_c2po(job["argv"], d, timeout=lim if _hung[0] < 2 else min(lim, 5) if _hung[0] < 6 else 1,
                           merge=job.get("merge", False))
    if rc == -9:
        _hung[0] += 1       # per worker: do not spend the whole budget on a compiler that hangs
    return {"dir": d, "rc": rc, "out": o, "err": e}


def compile_all(jobs):
    rig.import_c2po()
    return rig.pmap(_compile, jobs)


def parse_verdict(line):
    """'3:17,T' -> (3, 17, 1); None when it is not a verdict line"""
    a, s, b = line.partition(":")
    t, c, v = b.partition(",")
    if s and c and a.isdigit() and t.isdigit() and len(a) < 9 and len(t) < 10 and v in ("T", "F"):
        return int(a), int(t), 1 if v == "T" else 0
    return None


class Case:
    """One specification to be monitored over several input traces.
    formulas: list of formula tuples in output (= source) order; past: True for PTSPEC."""
    __slots__ = ("formulas", "past", "spec", "suffix", "argv", "files", "rows", "nv", "info", "sig", "comp",
                 "names", "script")

    def __init__(self, formulas, past, rows, nv=3, argv=(), spec=None, suffix=".c2po", files=None, sig=None,
                 names=fm.NAMES, info=None, script=None):
        self.formulas, self.past, self.rows, self.nv = formulas, past, rows, nv
        self.argv = list(argv)
        self.suffix = suffix
        self.names = names
        self.sig = sig or list(range(nv))
        self.info = info or {}
        self.script = script        # REPL commands to run instead of the default pipeline
        if spec is None:
            spec = "INPUT %s: bool;\n%sSPEC\n" % (", ".join(names[:nv]), "PT" if past else "FT") + \
                "".join("  %s;\n" % fm.text(f, names) for f in formulas)
        self.spec = spec
        if files is None:
            files = {"m.map": "".join("%s:%d\n" % (names[i], self.sig[i]) for i in range(nv))}
        self.files = files

    def job(self):
        files = dict(self.files)
        files["s" + self.suffix] = self.spec
        if self.script is not None:
            files["x.cmd"] = "\n".join(self.script) + "\n"
            return {"files": files, "argv": ["--script", "x.cmd"] + self.argv}
        argv = ["--spec", "s" + self.suffix, "-o", "o.bin"]
        if "m.map" in files and "--map" not in self.argv and "--trace" not in self.argv:
            argv += ["--map", "m.map"]
        return {"files": files, "argv": argv + self.argv}


def session(case, rows, path, k=0):
    cm = ["load %d %s" % (k, path)]
    for row in rows:
        for i, v in enumerate(row):
            cm.append("s %d %d %s" % (k, case.sig[i], case.info["show"](i, v) if "show" in case.info else v))
        cm.append("step %d" % k)
    return cm


def record(rid, case, rows, out):
    nodes, roots = fm.nodes_of(case.formulas)
    outs, t = [], 0
    junk = None
    for e in out["ev"]:
        if e[0] != "step":
            continue
        for ln in e[2]:
            v = parse_verdict(ln)
            if v is None:
                junk = junk or ln
            else:
                outs.append([t, v[0], v[1], v[2]])
        t += 1
    n = len(rows)
    end = out["end"]
    if end == "ok" and junk is not None:
        end = "unexpected output: " + junk[:80]
    rec = {"id": rid, "nodes": nodes, "roots": roots, "n": n, "steps": n if out["end"] == "ok" else t,
           "end": end, "outs": outs}
    bz = case.info.get("bz")
    if "surf" in case.info:     # a surface program, evaluated by spec/Surface.tla
        rec.update(case.info["surf"], inputs=[[int(r[i]) for r in rows] for i in range(len(rows[0]))])
    elif bz:      # atoms are expressions over typed inputs, evaluated by spec/Booleanizer.tla
        rec.update(bz=bz["nodes"], atomnodes=bz["atoms"],
                   inputs=[[int(r[i]) for r in rows] for i in range(len(rows[0]))])
    else:
        rec["atoms"] = [[int(r[i]) for r in rows] for i in range(case.nv)]
    return rec


def campaign(ck, cases, driver, clauses=("value", "stream", "late", "died", "reject"), keyfn=None, judge_timeout=800):
    """Compile every case with the real compiler, run every trace on the real monitor and let TLC
    (spec/VerdictConf.tla) decide whether each recorded run is one the specification allows."""
    res = compile_all([c.job() for c in cases])
    sess, meta = [], []
    records = []
    for c, r in zip(cases, res):
        c.comp = r
        if r["rc"] != 0 or not os.path.exists(os.path.join(r["dir"], "o.bin")):
            if r["rc"] == 11 and "constant formula" in r["err"] and not c.info.get("noconst"):
                # a rewriting may show that a formula is constant, which C2PO then rejects; the
                # specification must agree that it is: see ConstOk in VerdictConf
                ck.add(rejected_as_constant=1)
                rows = c.rows[0]
                rec = record(len(meta), c, rows, {"end": "ok", "ev": []})
                rec["end"] = "constant"
                records.append(rec)
                meta.append((c, rows, None))
                sess.append(None)
                continue
            if "reject" in clauses:
                ck.violation("valid specification is not compiled: exit code %s\n%s\n%s" % (r["rc"], c.spec, r["err"][-500:]),
                             key=keyfn(c, "reject") if keyfn else None,
                             files={"s" + c.suffix: c.spec}, argv=c.argv, rc=r["rc"])
            continue
        for rows in c.rows:
            sess.append(session(c, rows, os.path.join(r["dir"], "o.bin")))
            meta.append((c, rows, r))
    live = [i for i, s in enumerate(sess) if s is not None]
    outs = rig.run_sessions(driver, [sess[i] for i in live])
    outmap = {}
    for i, o in zip(live, outs):
        c, rows, r = meta[i]
        outmap[i] = o
        records.append(record(i, c, rows, o))
    bad, st, di = rig.judge("VerdictConf", records, timeout=judge_timeout)
    ck.add(states=st, transitions=max(0, st - 1), traces_validated_against_impl=len(live), programs=len(cases),
           verdicts_judged=sum(len(x["outs"]) for x in records))
    byid = {x["id"]: x for x in records}
    for b in sorted(bad, key=lambda b: (len(meta[b["id"]][0].spec), b["id"])):
        c, rows, r = meta[b["id"]]
        why = [w for w in b["why"] if w[0] in clauses or w[0] not in ("value", "stream", "late", "died")]
        if not why:
            continue
        ck.violation("%s: %s with %s" % (why[0], c.spec, c.argv), key=keyfn(c, why[0][0]) if keyfn else None,
                     files=dict(c.files, **{"s" + c.suffix: c.spec, "session.txt": "\n".join(sess[b["id"]] or []),
                                            "record.json": json.dumps([byid[b["id"]]])}),
                     why=why, argv=c.argv, rows=rows, outputs=[e for e in outmap.get(b["id"], {"ev": []})["ev"]][:200])
    for c in cases:
        if c.comp["rc"] == 0:
            ck.sample({"spec": c.spec, "argv": c.argv, "rows": len(c.rows[0])})
    for c in cases:
        shutil.rmtree(c.comp["dir"], ignore_errors=True)
    return records


_gen_cache = {}


def tlc_formulas(tense, maxub):
    """every formula of the small scope, enumerated by TLC from spec/GenMLTL.tla"""
    k = (tense, maxub)
    if k not in _gen_cache:
        r = rig.run_tlc("GenMLTL", 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Tense = "%s"\nMaxUb = %d\nINVARIANT Emit\n' % k,
                        heap="4g", timeout=600)
        fs = [json.loads(x) for x in rig.tlc_printed(r["out"], "F")]
        if r["rc"] != 0 or not fs:
            raise rig.MachineryError("GenMLTL: " + r["out"][-2000:])
        inv = fm.INV

        def conv(x):
            op = x[0]
            if op == "v":
                return ("v", x[1])
            if op == "!":
                return ("!", conv(x[1]))
            if op in inv:
                return (inv[op], conv(x[1]), conv(x[2]))
            if len(x) == 4:
                return (op, x[2], x[3], conv(x[1]))
            return (op, x[3], x[4], conv(x[1]), conv(x[2]))
        _gen_cache[k] = sorted(set(conv(x) for x in fs), key=repr)
    return _gen_cache[k]
