"""C11: files to verdicts: map files, trace headers, trace files, mission time, run on the r2u2
command line."""
import os, re, shutil
import formula as fm
import rig
from bzgen import Gen, fnum
from checks_bz import INPUTS, row as bz_row, decl, TY
from checks_surface import surf_case
from checks_verdict import OPTS, rand_cases
from core import Check, compile_all, parse_verdict

NM = ["p", "q0", "r_1", "Zz", "in_put", "x9"]


class Prog:
    """text(M) with named, typed variables, and its model"""
    def __init__(self, **kw):
        self.__dict__.update(kw)


def m_text(r, f, names, mtime):
    """concrete syntax; now and then an upper bound equal to the mission time is written M"""
    t = fm.text(f, names)
    if mtime is None:
        return t
    return re.sub(r",%d\]" % mtime, lambda x: ",M]" if r.random() < .7 else x.group(0), t)


def bool_prog(r, mltl):
    past = r.random() < .4
    nv = r.randint(1, 6)
    fs = []
    while not fs or len(fs) < r.randint(1, 4):
        f = fm.gen(r, r.randint(1, 4), past, nv=nv, mb=4)
        if f not in fs and (not mltl or not re.search("xor", fm.text(f))):
            fs.append(f)
    mtime = r.choice([1, 2, 3, 4]) if r.random() < .4 else None
    nodes, roots = fm.nodes_of(fs)
    model = {"nodes": nodes, "roots": roots}
    if mltl:
        # the atom a7 is column 7 of the input
        cols = r.sample(range(12), nv)
        top = max([n[1] for n in nodes if n[0] == "v"], default=0)
        k = cols.index(max(cols))       # an atom that occurs has the largest number
        cols[k], cols[top] = cols[top], cols[k]
        names = ["a%d" % c for c in cols]
        sub = {"&&": "&", "||": "|"}
        lines = [re.sub(r"&&|\|\|", lambda x: sub[x.group(0)], m_text(r, f, names, mtime)) for f in fs]
        used = set(re.findall(r"a\d+", " ".join(lines)))
        return Prog(text="\n".join(lines) + "\n", suffix=".mltl", vars=[(n, -1) for n in names], types=["b"] * nv, model=model,
                    argv=list(r.choice(OPTS)), mtime=mtime if any("M]" in x for x in lines) else None, events=True,
                    fixed=cols, row=lambda: [r.randrange(2) for _ in range(nv)], bz=False)
    names = r.sample(NM, nv)
    body = "".join("  %s;\n" % m_text(r, f, names, mtime) for f in fs)
    used_m = "M]" in body
    ds = list(names)
    r.shuffle(ds)
    text = "INPUT %s: bool;\n%sSPEC\n%s" % (", ".join(ds), "PT" if past else "FT", body)
    return Prog(text=text, suffix=".c2po", vars=[(n, -1) for n in names], types=["b"] * nv, model=model,
                argv=list(r.choice(OPTS)), mtime=mtime if used_m else None, events=True, declared=[(n, -1) for n in ds],
                row=lambda: [r.randrange(2) for _ in range(nv)], bz=False)


def bz_prog(r):
    timeless = r.random() < .5
    g = Gen(r, INPUTS, prev=not timeless, tau=not timeless)
    atoms = []
    for _ in range(r.randint(1, 4)):
        e = g.rel(r.randint(1, 3))
        if e[1] not in [a[1] for a in atoms] and e[1] not in ("true", "false") and len(e[1]) < 300:
            atoms.append(e)
    if not atoms:
        return bz_prog(r)
    past = r.random() < .4
    fs = [fm.gen(r, r.randint(0, 2), past, nv=len(atoms), mb=3) for _ in range(r.randint(1, 2))]
    if len(set(fs)) < len(fs):
        fs = fs[:1]
    nodes, roots = fm.nodes_of(fs)
    names = [a[1] for a in atoms]
    text = decl(INPUTS) + "%sSPEC\n" % ("PT" if past else "FT") + "".join("  %s;\n" % fm.text(f, names) for f in fs)
    return Prog(text=text, suffix=".c2po", vars=[(x[0], -1) for x in INPUTS], types=[x[1] for x in INPUTS],
                model={"nodes": nodes, "roots": roots, "bz": g.nodes, "atomnodes": [a[0] for a in atoms]},
                argv=["-bz"], mtime=None, events=timeless, declared=[(x[0], -1) for x in INPUTS],
                row=lambda: bz_row(r, INPUTS), bz=True)


def surf_prog(r):
    c = surf_case(r)
    vs = []
    for name, _, _ in c.info["inputs"]:
        m = re.fullmatch(r"(\w+)\[(\d+)\]", name)
        vs.append((m.group(1), int(m.group(2))) if m else (name, -1))
    timed = "TAU" in c.spec or "prev(" in c.spec
    return Prog(text=c.spec, suffix=".c2po", vars=vs, types=c.info["types"], model=c.info["surf"], argv=["-bz"], mtime=None,
                events=not timed, declared=vs, row=c.info["row"], bz=True)


def sym(v):
    return v[0] if v[1] < 0 else "%s[%d]" % v


def cell(r, p, ty, v):
    if ty == "f":
        s = fnum(v)
    elif p.bz:
        s = str(v)
        if v >= 0 and r.random() < .05:
            s = "+" + s
    else:
        s = r.choice(["1", "1", "1", "1.0", "2", "-1"]) if v else r.choice(["0", "0", "0", "0.0", "00", "-0"])
    if r.random() < .1:
        s = r.choice([" ", "  ", "\t"]) + s
    return s


def files(r, p, tight=False):
    """-> (how, argv additions, files, map model, columns)"""
    vs = list(p.vars)
    ncol = len(vs) + r.randint(0, 3)
    cols = list(range(ncol))
    how = r.choice(["map", "map", "map", "trace", "trace", "both", "gen"])
    if p.suffix == ".mltl":
        m = [[v[0], -1, -1, c] for v, c in zip(vs, p.fixed)]
        return "none", None, m, max(p.fixed) + 1 + (0 if tight else r.randint(0, 2)), None
    if how == "gen" and p.declared:
        return "gen", None, [[v[0], v[1], v[1], k] for k, v in enumerate(p.declared)], len(p.declared), None
    header = None
    if how == "gen":
        how = "map"
    if how in ("trace", "both"):
        hdr = vs + [("unused%d" % k, -1) for k in range(ncol - len(vs))]
        r.shuffle(hdr)
        if r.random() < .15:        # a name twice: the right-most column counts
            hdr.insert(r.randrange(len(hdr)), r.choice(vs))
        header = hdr
        m = [[v[0], v[1], v[1], k] for k, v in enumerate(hdr)]
        ncol = len(hdr)
        if how == "trace":
            return how, None, m, ncol, header
    r.shuffle(cols)
    m, lines = [], []
    arrays = {}
    for v in vs:
        if v[1] >= 0:
            arrays.setdefault(v[0], []).append(v[1])
    todo = []
    top = ncol
    for a, ks in arrays.items():
        if r.random() < .5:
            todo.append([a, 0, len(ks) - 1, top])
            top += len(ks)
        else:
            for k in ks:
                todo.append([a, k, k, top])
                top += 1
    for v in vs:
        if v[1] < 0:
            todo.append([v[0], -1, -1, r.choice(cols) if not p.bz and r.random() < .1 else cols.pop()])
            if not cols:
                cols = [top]
                top += 1
    if r.random() < .2:     # overridden entry
        x = list(r.choice(todo))
        x[3] = r.randrange(top)
        todo.insert(0, x)
        x0 = todo[0]
        rest = todo[1:]
        r.shuffle(rest)
        todo = [x0] + rest
    else:
        r.shuffle(todo)
    sp = r.choice(["", "", "", " "])
    for a, lo, hi, c in todo:
        name = a if lo < 0 else "%s[%d]" % (a, lo) if lo == hi and r.random() < .7 else "%s[%d..%d]" % (a, lo, hi)
        lines.append("%s%s:%s%d" % (name, sp, sp, c))
        if r.random() < .1:
            lines.append("other%d:%d" % (r.randrange(5), r.randrange(top)))
    return how, "\n".join(lines) + r.choice(["", "\n"]), todo, \
        effective_columns(todo) if tight else top, header


def effective_columns(m):
    last = {}
    for a, lo, hi, c in m:
        for k in range(lo, hi + 1):
            last[a, k] = c + k - lo
    return max(last.values()) + 1


def trace_text(r, p, m, ncol, header, n):
    """-> (csv text, line models)"""
    lines, out = [], []
    colty = ["b"] * ncol
    for v, ty in zip(p.vars, p.types):
        hits = [e for e in m if e[0] == v[0] and e[1] <= v[1] <= e[2]]
        for e in hits[-1:]:
            colty[e[3] + v[1] - e[1]] = ty
    mode = r.choice([0, 0, 1, 2]) if p.events else 0
    t = -1
    for _ in range(n):
        vals = p.row()
        cells = [0] * ncol
        for v, x in zip(p.vars, vals):
            e = [e for e in m if e[0] == v[0] and e[1] <= v[1] <= e[2]][-1]
            cells[e[3] + v[1] - e[1]] = x
        used = set()
        for v in p.vars:
            e = [e for e in m if e[0] == v[0] and e[1] <= v[1] <= e[2]][-1]
            used.add(e[3] + v[1] - e[1])
        txt = []
        for k in range(ncol):
            if k in used:
                txt.append(cell(r, p, colty[k], cells[k]))
            else:
                txt.append(r.choice(["0", "1", "17", "x", "3.5"]))
        body = ",".join(txt)
        if mode == 1 or (mode == 2 and r.random() < .4):
            t += r.choice([1, 1, 2, 3, 4, 7])
            lines.append([t, cells])
            out.append("@%d %s" % (t, body.lstrip() if body[0] in " \t" else body))
        else:
            t += 1
            lines.append([-1, cells])
            out.append(body)
    if header is not None:
        out.insert(0, r.choice(["# ", "#"]) + r.choice([",", ", "]).join(sym(v) for v in header))
    elif r.random() < .3:
        out.insert(0, "# " + ",".join("c%d" % k for k in range(ncol)))
    eol = r.choice(["\n", "\n", "\n", "\r\n"])
    return eol.join(out) + r.choice([eol, eol, ""]), lines


def job(r, p, tight=False):
    """tight: the trace has no columns beyond the ones that the mapping names"""
    how, maptext, m, ncol, header = files(r, p, tight)
    csv, lines = trace_text(r, p, m, ncol, header, r.randint(1, 30))
    fs = {"s" + p.suffix: p.text, "t.csv": csv}
    if maptext is not None:
        fs["m.map"] = maptext
    repl = how == "gen" or r.random() < .3
    aux = r.random() < .5
    if repl:
        opt = [x for x in p.argv if x != "-bz"]
        cm = ["enable_booleanizer"] if p.bz else []
        pm = ""
        if p.mtime is not None:
            if r.random() < .5:
                cm.append("set_mission_time %d" % p.mtime)
            else:
                pm = "--mission-time %d " % p.mtime
        cm.append("parse_%s %ss%s" % (p.suffix[1:], pm, p.suffix))
        if how in ("trace", "both"):
            cm.append("parse_trace t.csv")
        if how in ("map", "both"):
            cm.append("parse_map m.map")
        cm += ["type_check", "desugar"]
        if how == "gen":
            cm.append("generate_map" + (" --output g.map" if r.random() < .5 else ""))
        if "--no-rewrite" not in opt:
            cm.append("optimize_rewrites")
        if "--extops" not in opt:
            cm.append("remove_extended_operators")
        if "--no-cse" not in opt:
            cm.append("optimize_cse")
        cm += ["multi_operators_to_binary", "remove_extended_operators", "assemble %so.bin" % ("" if aux else "--no-aux ")]
        fs["x.cmd"] = "\n".join(cm) + "\n"
        argv = ["--script", "x.cmd"]
    else:
        argv = ["--spec", "s" + p.suffix, "-o", "o.bin"] + p.argv + ([] if aux else ["--no-aux"])
        if p.mtime is not None:
            argv += ["--mission-time", str(p.mtime)]
        if how in ("trace", "both"):
            argv += ["--trace", "t.csv"]
        if how in ("map", "both"):
            argv += ["--map", "m.map"]
    return {"files": fs, "argv": argv, "how": how, "map": m, "lines": lines, "ncol": ncol}


def base_record(p, j):
    rec = {"vars": [list(v) for v in p.vars], "map": j["map"], "lines": j["lines"], "flat": True, "outs": [], "end": "ok"}
    rec.update(p.model)
    return rec


def fill(rec, o):
    """what the program printed"""
    if o["rc"] != 0:
        rec["end"] = "exit code %d" % o["rc"]
    for ln in o["out"].splitlines():
        v = parse_verdict(ln)
        if v is None:
            rec["end"] = "unexpected output: " + ln[:60]
            break
        rec["outs"].append([0] + list(v))


def c11():
    ck = Check("C11", "model_checking")
    T = rig.THOROUGH
    r = ck.rng
    drv, cli = rig.build_monitor(bounds=rig.big_bounds())
    ps = []
    for _ in range(12000 if T else 1500):
        k = r.random()
        ps.append(bool_prog(r, False) if k < .5 else bool_prog(r, True) if k < .65 else bz_prog(r) if k < .85 else surf_prog(r))
    jobs = [job(r, p) for p in ps]
    res = compile_all(jobs)
    procs, recs, meta = [], [], []
    for p, j, x in zip(ps, jobs, res):
        base = base_record(p, j)
        if x["rc"] or not os.path.exists(os.path.join(x["dir"], "o.bin")):
            if x["rc"] == 11 and "constant formula" in x["err"]:
                continue
            ck.violation("valid files are not compiled: exit code %s\n%s\n%s" % (x["rc"], j["argv"], x["err"][-400:]), files=j["files"])
            continue
        pipe = r.random() < .5
        procs.append({"argv": [cli, "o.bin"] + ([] if pipe else ["t.csv"]), "cwd": x["dir"],
                      "stdin": os.path.join(x["dir"], "t.csv") if pipe else None})
        recs.append(base)
        meta.append((p, j, x))
    outs = rig.run_procs(procs)
    nv = 0
    for i, (rec, o) in enumerate(zip(recs, outs)):
        rec["id"] = i
        fill(rec, o)
        nv += len(rec["outs"])
    bad, st, di = rig.judge("FrontConf", recs, spec="SpecFront")
    ck.add(states=st, transitions=max(0, st - 1), traces_validated_against_impl=len(recs), programs=len(ps), verdicts_judged=nv,
           event_lines=sum(1 for x in recs for l in x["lines"] if l[0] >= 0))
    for h in ("map", "trace", "both", "gen", "none"):
        ck.add(**{"mapping_" + h: sum(1 for j in jobs if j["how"] == h)})
    for b in sorted(bad, key=lambda b: (len(meta[b["id"]][1]["lines"]), len(meta[b["id"]][0].text))):
        p, j, x = meta[b["id"]]
        ck.violation("%s %s mapping by %s\n%s" % (b["why"][0], j["argv"], j["how"], p.text), files=dict(j["files"], **{"out.txt": outs[b["id"]]["out"]}),
                     why=b["why"], argv=j["argv"], run=procs[b["id"]]["argv"])
    ck.sample({"files": jobs[0]["files"], "argv": jobs[0]["argv"]})
    for x in res:
        shutil.rmtree(x["dir"], ignore_errors=True)
    return ck.finish()
