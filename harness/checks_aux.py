"""C12: names and contract states in the output of a monitor with R2U2_AUX_STRING_SPECS."""
import os, re, shutil
import formula as fm
import rig
from checks_verdict import OPTS
from core import Check, compile_all

VN = ["a", "b", "c", "d"]
WORDS = ["lab", "x1", "phi", "alpha", "spec_3", "Safe", "req", "z", "aa", "l0", "F1", "contract", "q_9", "C", "inactive"]


def label(r, used, most=50):
    while True:
        w = r.choice(WORDS)
        k = r.random()
        if k < .3:
            w += "_" + r.choice(WORDS)
        elif k < .36:
            w = (w + "_" * 50)[:r.choice([most, most - 1, 31])]
        elif k < .5:
            w += str(r.randrange(100))
        if len(w) <= most and w not in used and w not in VN and not re.fullmatch("[FGHOURST]", w):
            used.add(w)
            return w


class Prog:
    pass


def prog(r):
    p = Prog()
    nv = r.randint(2, 4)
    used = set()
    items, fs, secs = [], [], []
    labs = {False: [], True: []}
    for _ in range(r.randint(1, 3)):
        past = r.random() < .4
        body = []
        for _ in range(r.randint(1, 4)):
            k = r.random()
            f = fm.gen(r, r.choice([0, 1, 1, 2, 2, 3]), past, nv=nv, mb=3)
            t = fm.text(f, VN)
            if labs[past] and r.random() < .3:
                l, g = r.choice(labs[past])
                f, t = ("&&", f, g), "(%s) && %s" % (t, l)
            if k < .35:
                l = label(r, used, 37)      # C2PO derives names of at most 50 characters from it
                c = fm.gen(r, r.choice([0, 0, 1, 2]), past, nv=nv, mb=3)
                body.append("%s: %s => %s;" % (l, fm.text(c, VN), t))
                items.append({"k": "c", "name": l, "a": len(fs), "b": len(fs) + 1})
                fs += [c, f]
            else:
                l = label(r, used) if k < .75 else ""
                body.append("%s%s;" % (l + ": " if l else "", t))
                items.append({"k": "f", "name": l, "a": len(fs), "b": 0})
                fs.append(f)
                if l:
                    labs[past].append((l, f))
        secs.append("%sSPEC\n  %s\n" % ("PT" if past else "FT", "\n  ".join(body)))
    p.nodes, roots = fm.nodes_of(fs)
    for it in items:
        it["a"] = roots[it["a"]]
        it["b"] = roots[it["b"]] if it["k"] == "c" else 0
    p.items, p.nv = items, nv
    p.long = False
    p.spec = "INPUT %s: bool;\n" % ", ".join(VN[:nv]) + "".join(secs)
    p.suffix = ".c2po"
    p.aux = r.random() < .9
    ls = [it for it in items if it["name"]]
    if ls and r.random() < .04:     # a name that C2PO cannot store: it must say so
        l = r.choice(ls)
        new = "n" * 51 if l["k"] == "f" else "n" * 38
        p.spec = re.sub(r"\b%s\b" % l["name"], new, p.spec)
        l["name"] = new
        p.long = p.aux
    p.bin = None
    p.argv = ["--spec", "s.c2po", "-o", "o.bin", "--map", "m.map"] + list(r.choice(OPTS)) + ([] if p.aux else ["--no-aux"])
    p.files = {"s.c2po": p.spec, "m.map": "".join("%s:%d\n" % (VN[i], i) for i in range(nv))}
    return p


def mltl_prog(r):
    """unlabelled formulas only"""
    p = Prog()
    p.nv, p.long = 3, False
    past = r.random() < .4
    fs = [fm.gen(r, r.randint(1, 3), past, nv=3, mb=3) for _ in range(r.randint(1, 5))]
    fs = [f for f in fs if "xor" not in fm.text(f)] or [("v", 0)]
    p.nodes, roots = fm.nodes_of(fs)
    p.items = [{"k": "f", "name": "", "a": x, "b": 0} for x in roots]
    p.spec = "".join(re.sub(r"&&|\|\|", lambda x: x.group(0)[0], fm.mltl_text(f)) + "\n" for f in fs)
    p.suffix = ".mltl"
    p.aux = True
    p.argv = ["--spec", "s.mltl", "-o", "o.bin"] + list(r.choice(OPTS))
    p.files = {"s.mltl": p.spec}
    return p


def line_of(t, ln):
    """one output line -> the tuple judged by spec/AuxConf.tla, or None"""
    m = re.fullmatch(r"Contract (\S+) (\w+) at (\d{1,9})", ln)
    if m:
        return [t, "c", m.group(1), int(m.group(3)), m.group(2)]
    m = re.fullmatch(r"([^:\s]+):(\d{1,9}),([TF])", ln)
    if m:
        return [t, "v", m.group(1), int(m.group(2)), int(m.group(3) == "T")]
    return None


def session(p, rows):
    cm = ["load 0 " + p.bin]
    for row in rows:
        cm += ["s 0 %d %d" % (i, v) for i, v in enumerate(row)] + ["step 0"]
    return cm


def record(rid, p, rows, steps, end):
    if end == "ok" and len(steps) != len(rows):
        end = "output ends early"
    lines = []
    for t, e in enumerate(steps):
        for ln in e[2]:
            l = line_of(t, ln)
            if l is None:
                end = "unexpected output: " + ln[:60]
            else:
                lines.append(l)
    return {"id": rid, "items": p.items, "nodes": p.nodes, "atoms": [[row[i] for row in rows] for i in range(p.nv)],
            "n": len(rows), "steps": len(steps), "aux": p.aux, "base": int(p.suffix == ".mltl"), "end": end, "lines": lines}


def monitor():
    return rig.build_monitor(name="aux", defs=("R2U2_AUX_STRING_SPECS=1",), cli=False, bounds=rig.big_bounds())[0]


def c12():
    ck = Check("C12", "model_checking")
    r = ck.rng
    run(ck, r, [mltl_prog(r) if r.random() < .1 else prog(r) for _ in range(16000 if rig.THOROUGH else 2000)], monitor())
    return ck.finish()


def run(ck, r, ps, drv):
    res = compile_all([{"files": p.files, "argv": p.argv} for p in ps])
    good = []
    for p, x in zip(ps, res):
        p.bin = os.path.join(x["dir"], "o.bin")
        if x["rc"] or not os.path.exists(p.bin):
            if os.path.exists(p.bin):
                ck.violation("exit code %s, but a binary is written\n%s" % (x["rc"], p.spec), files=p.files, argv=p.argv)
            elif not p.long and not (x["rc"] == 11 and "constant formula" in x["err"]):
                ck.violation("valid specification is not compiled: exit code %s\n%s\n%s" % (x["rc"], p.spec, x["err"][-400:]), files=p.files, argv=p.argv)
            continue
        good.append(p)
    # every session loads one to three programs into a monitor, one after the other
    sess, plan = [], []
    k = 0
    order = list(good)
    r.shuffle(order)
    while k < len(order):
        m = r.choice([1, 1, 2, 3])
        part = order[k:k + m]
        k += m
        cm, eras = [], []
        for p in part:
            rows = fm.rows_random(r, r.randint(8, 25), p.nv)
            cm += session(p, rows)
            eras.append((p, rows))
        sess.append(cm)
        plan.append(eras)
    outs = rig.run_sessions(drv, sess)
    recs, meta = [], []
    for cm, eras, o in zip(sess, plan, outs):
        steps = [e for e in o["ev"] if e[0] == "step"]
        at = 0
        for p, rows in eras:
            mine = steps[at:at + len(rows)]
            at += len(rows)
            recs.append(record(len(recs), p, rows, mine, "ok" if len(mine) == len(rows) else o["end"]))
            meta.append((p, rows, cm))
    bad, st, di = rig.judge("AuxConf", recs, spec="SpecAux")
    ck.add(states=st, transitions=max(0, st - 1), traces_validated_against_impl=len(recs), programs=len(ps),
           contracts=sum(1 for p in good for i in p.items if i["k"] == "c"), labels=sum(1 for p in good for i in p.items if i["name"]),
           verdict_lines=sum(1 for x in recs for l in x["lines"] if l[1] == "v"),
           contract_lines=sum(1 for x in recs for l in x["lines"] if l[1] == "c"))
    for b in sorted(bad, key=lambda b: len(meta[b["id"]][0].spec)):
        p, rows, cm = meta[b["id"]]
        ck.violation("%s %s\n%s" % (b["why"][0], p.argv, p.spec), files=dict(p.files, **{"session.txt": "\n".join(cm)}), why=b["why"],
                     rows=rows, lines=recs[b["id"]]["lines"][:200])
    ck.sample({"spec": ps[0].spec, "argv": ps[0].argv})
    for x in res:
        shutil.rmtree(x["dir"], ignore_errors=True)
