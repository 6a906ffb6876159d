"""Dumb decoder of R2U2 specification binaries (the byte layout the C monitor reads)."""
import struct

TLOPS = {0x1F: "nop", 0x1E: "config", 0x1D: "load", 0x1C: "return", 0x1B: "F", 0x1A: "G", 0x19: "U", 0x18: "R",
         0x17: "!", 0x16: "&", 0x15: "|", 0x14: ">", 0x11: "^", 0x10: "=", 0x0B: "O", 0x0A: "H", 0x09: "S", 0x08: "T"}


def split(data):
    """-> (header bytes, [instruction bytes without the length byte], bytes after the end marker)"""
    pos = data[0]
    header = data[1:pos]
    ins = []
    while pos < len(data) and data[pos] != 0:
        ins.append(data[pos + 1:pos + data[pos]])
        pos += data[pos]
    return header, ins, data[pos + 1:]


def tl(b):
    v1, v2, q, t1, t2, op = struct.unpack("<IIIBBB", b)
    return dict(v1=v1, v2=v2, q=q, t1=t1, t2=t2, op=TLOPS.get(op, "?%d" % op))


def program(data):
    """temporal program for spec/Monitor.tla: ins, size, lb, ub (queues numbered from 1); None when it
    is not one this model covers (other engines, unknown operators)"""
    _, ins, _ = split(data)
    out, size, lb, ub, nbz = [], {}, {}, {}, 0
    for b in ins:
        if b[0] == 5:
            nbz += 1
        elif b[0] == 4:
            i = tl(b[1:])
            if i["op"] not in ("load", "return", "U", "R", "!", "&", "|", "=", "S", "T"):
                return None
            def val(t, v):
                return v + 1 if t == 2 else v
            t1, t2 = i["t1"], i["t2"]
            out.append([i["op"], t1, val(t1, i["v1"]), t2, val(t2, i["v2"]), i["q"] + 1])
        elif b[0] == 2 and b[1] == 4:
            i = tl(b[2:])
            q = i["q"] + 1
            if i["t1"] == 0:
                size[q] = i["v1"]
            else:
                lb[q], ub[q] = i["v1"], i["v2"]
        else:
            return None
    n = max(size) if size else 0
    if sorted(size) != list(range(1, n + 1)):
        return None
    return {"ins": out, "size": [size[q] for q in range(1, n + 1)], "lb": [lb.get(q, 0) for q in range(1, n + 1)],
            "ub": [ub.get(q, 0) for q in range(1, n + 1)], "bz": nbz}


def tables(data):
    """all instruction tables, as loaded, for spec/Capacity.tla; None for an unknown layout"""
    _, ins, rest = split(data)
    r = {"bz": [], "tl": [], "scq": [], "temp": [], "names": [], "contracts": []}
    for b in ins:
        if b[0] == 5:
            r["bz"].append([b[17], *[min(x, 0x7fffffff) for x in (struct.unpack("<I", b[1:5])[0], *struct.unpack("<II", b[9:17]))]])
        elif b[0] == 4:
            i = tl(b[1:])
            r["tl"].append([i["op"], i["t1"], i["v1"], i["t2"], i["v2"], i["q"]])
        elif b[0] == 2 and b[1] == 4:
            i = tl(b[2:])
            if i["t1"] == 0:
                r["scq"].append([i["q"], i["v1"], int(i["t2"] == 0)])
            else:
                r["temp"].append(i["q"])
        else:
            return None
    for x in rest.split(b"\0"):
        w = x.decode("ascii", "replace").split(" ")
        if w[0] == "F":
            r["names"].append(len(w[1]))
        elif w[0] == "C":
            r["contracts"].append(len(w[1]))
    return r
