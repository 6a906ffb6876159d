"""C16: command scripts: state, push and pop, failures, and what is compiled in the end."""
import hashlib, json, os, re, shutil
import rig
from checks_front import Prog, base_record, bool_prog, bz_prog, fill, files, surf_prog, trace_text
from core import Check, compile_all

ILL = ["INPUT a: bool; i: int;\nFTSPEC\n  a + 1;\n", "INPUT a: bool;\nFTSPEC\n  a && zz;\n", "INPUT a: bool;\nFTSPEC\n  F[3,1] a;\n",
       "INPUT a: bool;\nPTSPEC\n  a;\nFTSPEC\n  O[0,1] a;\n", "INPUT i: int;\nFTSPEC\n  i;\n"]
SYN = ["INPUT a: bool\nFTSPEC\n  a;\n", "INPUT a: bool;\nFTSPEC\n  a &&;\n", "FTSPEC\n  x: (a;\n", "INPUT a: bool;\nFTSPEC\n  a ? a;\n"]
PASSES = ["optimize_rewrites", "optimize_cse", "multi_operators_to_binary", "flatten_multi_operators", "remove_extended_operators",
          "remove_release_operators", "sort_operands_by_pd", "to_nnf", "to_bnf", "compute_atomics", "compute_scq_sizes", "generate_map"]
STATS = "%scq %dagsize %numtlo %asmnum %asmbz %asmtltemp %asmtl %asmcg %asmaliases %asmsignals %asmatomics|%f0|%F\\n"
LOOKS = ["print_c2po", "print_c2po", "print_prefix", "print_mltl", 'print_stats "%s"' % STATS, "write_c2po w.c2po", "write_prefix w.pre",
         "write_mltl w.mltl", "echo hello", "help", "print_stats_format"]
FAIL = ["frobnicate", "frobnicate now", "parse_c2po missing.c2po", "parse_mltl missing.mltl", "parse_c2po syn.c2po", "parse_c2po syn.c2po",
        "parse_map missing.map", "parse_map bad.map", "compile", "assemble --scq-constant x o.bin", 'echo "open', "parse_c2po", "parse_trace missing.csv",
        "set_mission_time", "desugar all", "check_sat nothing"]
MAL = {c for c in FAIL if not c.startswith("parse_")} | {"parse_c2po"}
# what a command writes, and what of it can be compared
OUT = {"write_c2po": 1, "write_prefix": 1, "write_mltl": 1, "write_bounds_c": 1, "write_bounds_rust": 1, "assemble": 1, "unsafe_assemble": 1, "compile": 1}


class Family:
    pass


def settings(p):
    cm = ["enable_booleanizer" if p.bz else "disable_booleanizer", "set_mission_time %d" % (3 if p.mtime is None else p.mtime)]
    return cm


def family(r):
    fam = Family()
    fam.progs, fam.maps, fam.files = [], [], {}
    kinds = r.sample(["bool", "bool", "mltl", "bz", "surf", "surf"], r.choice([1, 2, 2, 3]))
    for k, kind in enumerate(kinds):
        p = bool_prog(r, kind == "mltl") if kind in ("bool", "mltl") else bz_prog(r) if kind == "bz" else surf_prog(r)
        p.file = "p%d%s" % (k, p.suffix)
        fam.files[p.file] = p.text
        p.maps = []
        if p.suffix == ".mltl":
            how, _, m, ncol, hdr = files(r, p)
            fam.maps.append({"file": p.file, "prog": k + 1, "entries": m, "cmd": None, "ncol": ncol, "hdr": None})
            p.maps = [len(fam.maps) - 1]
        while len(p.maps) < 2 and p.suffix != ".mltl":
            how, text, m, ncol, hdr = files(r, p)
            if how not in ("map", "trace"):
                continue
            f = "m%d%d.%s" % (k, len(p.maps), "map" if how == "map" else "csv")
            if how == "map":
                fam.files[f] = text
            else:
                fam.files[f] = trace_text(r, p, m, ncol, hdr, 3)[0]
            fam.maps.append({"file": f, "prog": k + 1, "entries": m, "cmd": "parse_%s %s" % (how, f), "ncol": ncol, "hdr": hdr})
            p.maps.append(len(fam.maps) - 1)
        fam.progs.append(p)
    fam.files.update({"ill.c2po": r.choice(ILL), "syn.c2po": r.choice(SYN), "bad.map": r.choice(["a=0\n", "p:0\nq0 1\n", "x\n"])})
    return fam


def base(r, fam, k, simple=False):
    """a sensible way to compile program k"""
    p = fam.progs[k]
    cm = settings(p) + ["parse_%s %s" % (p.suffix[1:], p.file)]
    mp = fam.maps[r.choice(p.maps)]
    at = r.randrange(3)
    mapc = [mp["cmd"]] if mp["cmd"] else []
    if at == 0:
        cm += mapc
    cm += ["type_check"]
    if at == 1:
        cm += mapc
    if r.random() < .3 or simple:
        return cm + (mapc if at == 2 else []) + ["compile o.bin", "write_bounds_c b.h"]
    cm += ["desugar"]
    if at == 2:
        cm += mapc
    cm += [r.choice(PASSES[:9]) for _ in range(r.randint(0, 4))]
    cm += ["remove_extended_operators", "multi_operators_to_binary", "remove_extended_operators"]
    if r.random() < .5:
        cm += ["print_c2po"]
    cm += ["assemble %s--print o.bin" % r.choice(["", "--no-aux "]), r.choice(["write_bounds_c b.h", "print_mltl", "print_prefix"]), 'print_stats "%s"' % STATS]
    return cm


def noise(r, fam, bases, depth=0):
    k = r.randrange(9)
    if k < 2:
        return [r.choice(LOOKS)]
    if k < 4:
        return [r.choice(FAIL)]
    if k == 4:
        return ["pop"] if r.random() < .3 else []
    b = r.choice(bases)
    if k == 5:
        cm = list(b)
    elif k == 6:
        cm = [r.choice(PASSES) for _ in range(r.randint(1, 3))] + r.choice([[], ["assemble o.bin"]])
    elif k == 7:
        cm = [r.choice(["parse_c2po ill.c2po", "parse_c2po syn.c2po", "enable_booleanizer", "disable_booleanizer", "set_mission_time 7"])]
        cm += r.choice([[], ["type_check"], ["compile o.bin"]])
    else:
        cm = b[r.randrange(len(b)):]
        cm = cm[:r.randint(1, len(cm))]
    if depth < 2 and r.random() < .4:
        i = r.randint(0, len(cm))
        cm = cm[:i] + noise(r, fam, bases, depth + 1) + cm[i:]
    return ["push"] + cm + ["pop"]


def wild(r, fam, bases):
    """commands in any order"""
    pool = ["parse_%s %s" % (p.suffix[1:], p.file) for p in fam.progs] * 2 + [m["cmd"] for m in fam.maps if m["cmd"]] + PASSES + LOOKS + FAIL[:6] + \
        ["type_check", "desugar", "compile o.bin", "assemble o.bin", "unsafe_assemble o.bin", "write_bounds_c b.h", "push", "push", "pop", "pop"] * 2
    return [r.choice(pool) for _ in range(r.randint(4, 14))]


def scripts(r, fam):
    bases = [base(r, fam, r.randrange(len(fam.progs)), r.random() < .2) for _ in range(r.choice([1, 2, 2, 3]))]
    out = []
    for _ in range(r.randint(3, 5)):
        cm = []
        if r.random() < .15:
            cm = wild(r, fam, bases)
        for b in r.sample(bases, r.randint(1, len(bases))):
            b = list(b)
            for _ in range(r.choice([0, 1, 1, 2, 3])):
                i = r.randint(0, len(b))
                b[i:i] = noise(r, fam, bases)
            cm += b
            if r.random() < .2:
                cm += r.choice([["compile o.bin"], wild(r, fam, bases)])
        if r.random() < .2:
            i = r.randint(len(cm) // 2, len(cm))
            cm[i:i] = ["exit"]
        out.append(cm)
    return out


def kind(text, op):
    """kind of the result of a command, from its messages"""
    if re.search(r"^(\w+: )?internal: |Traceback \(most recent", text, re.M):
        return "internal"
    if "guard condition not met" in text:
        return "guard"
    if re.search(r"^error: unknown command", text, re.M):
        return "unknown"
    if re.search(r"^error: error parsing command", text, re.M):
        return "shlex"
    if re.search(r"^error: no state to pop", text, re.M):
        return "pop"
    if re.search(r"^usage: ", text, re.M) and re.search(r": error: ", text):
        return "args"
    if re.search(r"^(\w+: )?error: ", text, re.M):
        if "constant formula" in text:
            return "constant"
        if re.search(r"no such file", text):
            return "file"
        return "parse" if op.startswith("parse_") and op not in ("parse_map", "parse_trace") else "fail"
    return "ok"


def command(c, k):
    """script lines for command k; what it writes gets a name of its own"""
    w = c.split()
    if w[0] in OUT and len(w) > 1 and kind and "x o.bin" not in c:
        w[-1] = "%d_%s" % (k, w[-1])
        c = " ".join(w)
    return c


def job(fam, cm):
    lines = []
    for k, c in enumerate(cm):
        lines += ["echo @@%d" % k, command(c, k)]
    lines.append("echo @@%d" % len(cm))
    return {"files": dict(fam.files, **{"x.cmd": "\n".join(lines) + "\n"}), "argv": ["--script", "x.cmd"], "merge": True}


def digest(x):
    return hashlib.sha1(x).hexdigest()[:16]


def read(d, f):
    try:
        with open(os.path.join(d, f), "rb") as h:
            return h.read()
    except OSError:
        return None


def observe(cm, x):
    parts = re.split(r"^@@(\d+)\n", x["out"], flags=re.M)
    text = {int(parts[i]): parts[i + 1] for i in range(1, len(parts), 2)}
    out = []
    for k, c in enumerate(cm):
        w = c.split()
        op, arg = w[0], " ".join(w[1:])
        t = text.get(k)
        if op == "exit" and t is not None:
            t = ""
        e = {"op": op, "arg": arg, "num": int(arg) if op == "set_mission_time" and arg.isdigit() else -1, "obs": "", "mal": int(c in MAL),
             "res": "none" if t is None else kind(t, op)}
        e["made"] = None
        if t is not None:
            f = read(x["dir"], "%d_%s" % (k, w[-1])) if op in OUT and len(w) > 1 else None
            e["made"] = f is not None
            e["text"] = t
            if e["res"] == "ok":
                if op in ("push", "pop", "exit"):
                    pass
                else:
                    t = re.sub(r"^(\w+: )?warning: .*\n", "", t, flags=re.M)       # some are printed once only
                    e["obs"] = digest((t.replace("%d_%s" % (k, w[-1]), w[-1]) + "|").encode() + (f or b""))
                if op in OUT and f is None:
                    e["res"] = "no file"
            else:
                e["obs"] = "-"
                if f is not None and op not in ("compile",):
                    e["res"] = "fails, but writes"
        out.append(e)
    return out


def current(fam, cmds):
    """(program, map) that the commands so far selected: for the trace to run; TLC decides on its own"""
    st, s = [], [None, None]
    res = []
    files_ = [p.file for p in fam.progs]
    for c in cmds:
        res.append(tuple(s))
        if c["op"] == "push":
            st.append(list(s))
        elif c["op"] == "pop":
            if st:
                s = st.pop()
        elif c["res"] == "ok" and c["op"] in ("parse_c2po", "parse_mltl"):
            s[0] = files_.index(c["arg"]) if c["arg"] in files_ else None
            if c["op"] == "parse_mltl" and s[0] is not None:
                s[1] = fam.progs[s[0]].maps[0]
        elif c["res"] == "ok" and c["op"] in ("parse_map", "parse_trace"):
            hit = [i for i, m in enumerate(fam.maps) if m["file"] == c["arg"]]
            s[1] = hit[0] if hit else None
    return res


def families(ck, n, cli, batch=None):
    r = ck.rng
    fams = [family(r) for _ in range(n)]
    jobs, where = [], []
    for i, fam in enumerate(fams):
        fam.scripts = scripts(r, fam)
        for j, cm in enumerate(fam.scripts):
            jobs.append(job(fam, cm))
            where.append((i, j))
    res = compile_all(jobs)
    recs, procs, pmeta = [], [], []
    for i, fam in enumerate(fams):
        fam.rec = {"id": i, "scripts": [], "runs": [],
                   "progs": [{"file": p.file, "bz": int(p.bz), "mt": -1 if p.mtime is None else p.mtime, "ill": 0,
                              "vars": [list(v) for v in p.vars], "model": p.model} for p in fam.progs]
                   + [{"file": "ill.c2po", "bz": 0, "mt": -1, "ill": 1}],
                   "maps": [{"file": m["file"], "prog": m["prog"], "entries": m["entries"]} for m in fam.maps]}
    ncmd = 0
    for (i, j), jb, x in zip(where, jobs, res):
        fam = fams[i]
        cs = observe(fam.scripts[j], x)
        ncmd += len(cs)
        cur = current(fam, cs)
        made = [k for k, c in enumerate(cs) if c["res"] == "ok" and c["op"] in ("assemble", "compile", "unsafe_assemble")
                and cur[k][0] is not None and cur[k][1] is not None and fam.maps[cur[k][1]]["prog"] == cur[k][0] + 1]
        for k in r.sample(made, min(2, len(made))):
            p, m = fam.progs[cur[k][0]], fam.maps[cur[k][1]]
            csv, lines = trace_text(r, p, m["entries"], m["ncol"], m["hdr"], r.randint(5, 20))
            with open(os.path.join(x["dir"], "t%d.csv" % k), "w") as f:
                f.write(csv)
            cwd = os.path.join(x["dir"], "run%d" % k)
            os.mkdir(cwd)
            procs.append({"argv": [cli, "../%d_o.bin" % k, "../t%d.csv" % k], "cwd": cwd})
            pmeta.append((i, {"script": j + 1, "pos": k + 1, "prog": cur[k][0] + 1, "lines": lines, "outs": [], "end": "ok"}))
        fam.rec["scripts"].append({"cmds": [{a: c[a] for a in ("op", "arg", "num", "mal", "res", "obs")} for c in cs], "rc": x["rc"]})
        fam.texts = getattr(fam, "texts", []) + [[c.get("text", "") for c in cs]]
    for (i, u), o in zip(pmeta, rig.run_procs(procs)):
        fill(u, o)
        fams[i].rec["runs"].append(u)
    bad, st, di = rig.judge("Session", [f.rec for f in fams], spec="SpecSession")
    ck.add(states=st, transitions=max(0, st - 1), families=n, scripts=len(jobs), commands=ncmd, traces_validated_against_impl=len(jobs),
           binaries_judged=len(procs), failures=sum(1 for f in fams for s in f.rec["scripts"] for c in s["cmds"] if c["res"] not in ("ok", "none")))
    for b in sorted(bad, key=lambda b: sum(map(len, fams[b["id"]].scripts))):
        fam = fams[b["id"]]
        why = b["why"][0]
        fs = dict(fam.files)
        for j, cm in enumerate(fam.scripts):
            fs["script%d.cmd" % (j + 1)] = "\n".join(command(c, k) for k, c in enumerate(cm)) + "\n"
        fs["out.json"] = json.dumps(fam.texts, indent=1)
        fs["record.json"] = json.dumps([fam.rec])
        ck.violation("%s in %s" % (why, [cm for j, cm in enumerate(fam.scripts) if j + 1 in why[1:2]] or [len(fam.scripts)]), files=fs, why=b["why"])
    ck.sample({"files": fams[0].files, "scripts": fams[0].scripts})
    for x in res:
        shutil.rmtree(x["dir"], ignore_errors=True)


def c16():
    ck = Check("C16", "model_checking")
    drv, cli = rig.build_monitor(bounds=rig.big_bounds(), driver=False)
    families(ck, 2500 if rig.THOROUGH else 300, cli)
    return ck.finish()
