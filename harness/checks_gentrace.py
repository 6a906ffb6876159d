"""C20: generate_trace makes traces that suit the program; run_r2u2 reports what the monitor says of them."""
import os, re, shutil
import rig
from checks_front import base_record, bool_prog, bz_prog, fill, job, sym, surf_prog
from core import Check, compile_all


def ask(r):
    """a request for a trace"""
    lo = r.choice([0, 0, 1, -1, -5, -100, 7])
    hi = lo + r.choice([0, 1, 2, 3, 10, 200])
    return dict(n=r.choice([0, 1, 2, 5, 10, 20, 40]), lo=lo, hi=hi, prec=r.choice([None, None, 1, 2, 3]), seed=r.choice([None, None, 0, 1, 77, -3]))


def command(r, q, out, show):
    args = ["%d %s %s" % (q["n"], r.choice(["%d", "%d.0"]) % q["lo"], q["hi"]), "--output " + out]
    if q["prec"] is not None:
        args.append("--float-precision %d" % q["prec"])
    if q["seed"] is not None:
        args.append("--seed=%d" % q["seed"])
    if show:
        args.append("--print")
    return "generate_trace " + " ".join(args)


def prog_job(r):
    while True:
        k = r.random()
        p = bool_prog(r, False) if k < .5 else bool_prog(r, True) if k < .65 else bz_prog(r) if k < .75 else surf_prog(r)
        j = job(r, p)
        if j["argv"][0] == "--script":
            break
    cm = j["files"]["x.cmd"].split("\n")[:-1]
    q = ask(r)
    show = r.random() < .3
    at = r.randint(cm.index("desugar") + 1, len(cm))
    while at < len(cm) and any(c.startswith("generate_map") for c in cm[at:]):
        at += 1
    cm.insert(at, command(r, q, "g.csv", False))
    if q["seed"] is not None:
        cm.insert(r.randint(at + 1, len(cm)), command(r, q, "h.csv", False))
    cm.append("run_r2u2 o.bin g.csv --r2u2dir . --output out.txt" + (" --num-runs %d" % r.randint(2, 3) if r.random() < .2 else "") + (" --print" if show else ""))
    j["files"]["x.cmd"] = "\n".join(cm) + "\n"
    return p, j, q, show


NUM = {"b": r"[01]", "i": r"-?\d+"}


def read(p, j, q, text):
    """-> (form, header as variables, cells)"""
    lines = text.split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    if not lines or not lines[0].startswith("#"):
        return "no header", [], []
    names = []
    for s in lines[0][1:].split(","):
        m = re.fullmatch(r"(\w+)\[(\d+)\]", s.strip())
        names.append([m.group(1), int(m.group(2))] if m else [s.strip(), -1])
    ty = {tuple(v): t for v, t in zip(p.vars, p.types)}
    prec = 5 if q["prec"] is None else q["prec"]
    cells, form = [], "ok"
    for ln in lines[1:]:
        row = []
        for k, c in enumerate(ln.split(",")):
            t = ty.get(tuple(names[k])) if k < len(names) else None
            if t == "f":
                m = re.fullmatch(r"-?\d+\.(\d+)", c)
                if not m or len(m.group(1)) != prec:
                    form = "'%s' is not a number with %d decimal places" % (c, prec)
                    row.append(0)
                else:
                    row.append(int(c.replace(".", "")))
            elif re.fullmatch(r"-?\d+", c):
                row.append(int(c))
            else:
                if t is not None:
                    form = "'%s' is not a value of type %s" % (c, t)
                row.append(0)
        cells.append(row)
    return form, names, cells


def c20():
    ck = Check("C20", "translation_validation")
    r = ck.rng
    T = rig.THOROUGH
    drv, cli = rig.build_monitor(bounds=rig.big_bounds())
    ps = [prog_job(r) for _ in range(10000 if T else 1000)]
    build = os.path.join(rig.scratch(), "r2u2dir")
    os.makedirs(os.path.join(build, "build"), exist_ok=True)
    shutil.copy(cli, os.path.join(build, "build", "r2u2"))
    for p, j, q, show in ps:
        j["files"]["x.cmd"] = j["files"]["x.cmd"].replace("--r2u2dir .", "--r2u2dir " + build)
    res = compile_all([j for _, j, _, _ in ps])
    recs, meta = [], []
    for (p, j, q, show), x in zip(ps, res):
        def get(n):
            f = os.path.join(x["dir"], n)
            return open(f).read() if os.path.exists(f) else None
        if x["rc"] == 11 and "constant formula" in x["err"]:
            continue
        g, out = get("g.csv"), get("out.txt")
        if x["rc"] or g is None or out is None:
            ck.violation("exit code %s\n%s\n%s\n%s" % (x["rc"], j["files"]["x.cmd"], p.text, x["err"][-500:]), files=j["files"])
            continue
        rec = base_record(p, j)
        del rec["lines"]
        form, names, cells = read(p, j, q, g)
        # (the signals of an MLTL file are those that occur in it)
        must = [v + 1 for v, n in enumerate(p.vars) if p.suffix != ".mltl" or re.search(r"\b%s\b" % n[0], p.text)]
        n = q["n"]
        if p.suffix != ".mltl" and all(len(re.findall(r"\b%s\b" % v[0], p.text)) == 1 for v in p.vars):
            # signals are declared, but none occurs: there is nothing to generate
            must, n = [], len(cells)
        rec.update(form=form, again=get("h.csv") in (None, g), printed=not show or out.strip() in x["out"], verdicts="f" not in p.types,
                   gen=dict(n=n, lo=q["lo"], hi=q["hi"], scale=10 ** (5 if q["prec"] is None else q["prec"]), names=names, types=p.types, must=must, cells=cells))
        fill(rec, dict(rc=0, out=out))
        rec["id"] = len(recs)
        recs.append(rec)
        meta.append((p, j, x, g))
    bad, st, di = rig.judge("GenTrace", recs, spec="SpecGen")
    ck.add(states=st, programs=len(ps), traces_validated_against_impl=len(recs), verdicts_judged=sum(len(x["outs"]) for x in recs),
           disagreements_checked=sum(len(x["gen"]["cells"]) for x in recs))
    for b in sorted(bad, key=lambda b: len(meta[b["id"]][0].text)):
        p, j, x, g = meta[b["id"]]
        ck.violation("%s %s\n%s" % (b["why"][0], j["files"]["x.cmd"], p.text), files=dict(j["files"], **{"g.csv": g}), why=b["why"])
    ck.sample({"files": ps[0][1]["files"]})
    for x in res:
        shutil.rmtree(x["dir"], ignore_errors=True)
    return ck.finish()
