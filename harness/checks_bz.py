"""C08: expressions over typed inputs (booleanizer), judged by TLC against spec/Booleanizer.tla."""
import formula as fm
import rig
from bzgen import Gen, fnum
from core import Check, Case, campaign

INPUTS = [("i0", "i", -50, 50), ("i1", "i", -9, 9), ("i2", "i", 0, 3), ("x0", "f", -1024, 1024),
          ("x1", "f", -512, 512), ("b0", "b", 0, 1), ("b1", "b", 0, 1)]
TY = {"i": "int", "f": "float", "b": "bool"}


def row(r, inputs):
    out = []
    for n, ty, lo, hi in inputs:
        if ty == "f":
            out.append(r.randint(lo // 64, hi // 64) * 64 if r.random() < .7 else r.choice([0, 64, -64, 256]))
        elif ty == "i":
            out.append(r.randint(lo, hi) if r.random() < .5 else r.randint(max(lo, -2), min(hi, 2)))
        else:
            out.append(r.randrange(2))
    return out


def decl(inputs):
    return "INPUT\n" + "".join("  %s: %s;\n" % (n, TY[t]) for n, t, _, _ in inputs)


def bz_case(r, fs, past, atoms, gen, inputs, n, ntr=2, argv=(), define=None, spec=None):
    names = [a[1] for a in atoms]
    rows = []
    for _ in range(ntr):
        base = [row(r, inputs) for _ in range(r.randint(1, 6))]
        rows.append([list(r.choice(base)) if r.random() < .5 else row(r, inputs) for _ in range(n)])
    if spec is None:
        spec = decl(inputs) + (define or "") + "%sSPEC\n" % ("PT" if past else "FT") + \
            "".join("  %s;\n" % fm.text(f, names) for f in fs)
    show = lambda i, v: fnum(v) if inputs[i][1] == "f" else str(v)
    return Case(fs, past, rows, nv=len(inputs), argv=["-bz"] + list(argv), spec=spec,
                files={"m.map": "".join("%s:%d\n" % (x[0], i) for i, x in enumerate(inputs))},
                sig=list(range(len(inputs))),
                info={"bz": {"nodes": gen.nodes, "atoms": [a[0] for a in atoms]}, "show": show})


def cases(ck, n, r, depth=(1, 4), natoms=(1, 4), tl=(0, 2), steps=(15, 40), argvs=([], ["--no-rewrite"], ["--no-cse"])):
    out = []
    for _ in range(n):
        g = Gen(r, INPUTS)
        atoms = []
        for _ in range(r.randint(*natoms)):
            e = g.rel(r.randint(*depth)) if r.random() < .75 else g.expr("b", r.randint(1, 3))
            if e[1] not in [a[1] for a in atoms] and e[1] not in ("true", "false") and len(e[1]) < 400:
                atoms.append(e)
        if not atoms:
            continue
        past = r.random() < .4
        fs = []
        for _ in range(r.randint(1, 3)):
            f = fm.gen(r, r.randint(*tl), past, nv=len(atoms), mb=3) if len(atoms) > 0 else ("v", 0)
            if f not in fs:
                fs.append(f)
        out.append(bz_case(r, fs, past, atoms, g, INPUTS, r.randint(*steps), argv=r.choice(argvs)))
    ck.add(expressions=sum(len(c.info["bz"]["atoms"]) for c in out))
    return out


def many(ck, n, r):
    """more instructions than a byte can number"""
    out = []
    for _ in range(n):
        g = Gen(r, INPUTS)
        atoms = []
        while len(atoms) < 110:
            e = g.rel(r.randint(2, 4))
            if e[1] not in [a[1] for a in atoms] and e[1] not in ("true", "false") and len(e[1]) < 400:
                atoms.append(e)
        fs = [("v", i) for i in range(len(atoms))]
        r.shuffle(fs)
        out.append(bz_case(r, fs, r.random() < .5, atoms, g, INPUTS, 15, ntr=1, argv=r.choice(([], ["--no-rewrite"], ["--no-cse"]))))
    ck.add(expressions=sum(len(c.info["bz"]["atoms"]) for c in out))
    return out


CL = ("value", "stream", "late", "died", "reject")


def c08():
    ck = Check("C08", "model_checking")
    drv, _ = rig.build_monitor(cli=False, bounds=rig.big_bounds())
    r = ck.rng
    T = rig.THOROUGH
    # single operators first: shallow expressions, one formula each
    campaign(ck, cases(ck, 4000 if T else 350, r, depth=(1, 2), natoms=(1, 2), tl=(0, 0)), drv, CL)
    campaign(ck, cases(ck, 6000 if T else 450, r), drv, CL)
    campaign(ck, cases(ck, 1500 if T else 80, r, depth=(3, 6), natoms=(3, 6), tl=(1, 3)), drv, CL)
    campaign(ck, many(ck, 60 if T else 5, r), drv, CL)
    return ck.finish()
