"""C09: the surface language (definitions, labels, arrays, structures, enumerations, aggregation)
means what spec/Surface.tla says."""
import rig
from bzgen import fnum
from core import Check, Case, campaign
from surfgen import program

CL = ("value", "stream", "late", "died", "reject")


def surf_case(r, n=(12, 25), argvs=([],), **kw):
    while True:
        g = program(r, **kw)
        if any(x[2] for x in g.items):
            break
    rows = []
    for _ in range(2):
        base = [g.row() for _ in range(3)]
        rows.append([list(r.choice(base)) if r.random() < .3 else g.row() for _ in range(r.randint(*n))])
    show = lambda i, v: fnum(v) if g.inputs[i][1] == "f" else str(v)
    nspec = sum(1 for x in g.items if x[2])
    return Case([("v", 0)] * nspec, False, rows, nv=len(g.inputs), argv=["-bz"] + list(r.choice(argvs)), spec=g.text(),
                files={"m.map": "\n".join(g.maplines) + "\n"}, sig=list(range(len(g.inputs))),
                info={"surf": {"items": g.items, "structs": [[s, [m for m, _ in ms]] for s, ms in g.structs.items()]}, "show": show,
                      "types": [x[1] for x in g.inputs], "row": g.row, "inputs": g.inputs})


def c09():
    ck = Check("C09", "model_checking")
    drv, _ = rig.build_monitor(cli=False, bounds=rig.big_bounds())
    r = ck.rng
    T = rig.THOROUGH
    opts = ([], [], [], ["--no-rewrite"], ["--no-cse"], ["--extops"], ["--no-rewrite", "--no-cse"], ["--scq-constant", "2"])
    cs = [surf_case(r, argvs=opts, shadow=r.random() < .5) for _ in range(20000 if T else 2500)]
    campaign(ck, cs, drv, CL)
    return ck.finish()
