"""Loading and pretty-printing of the MIR facts written by driver/ (one JSON per crate)."""
import json


class Body:
    __slots__ = ("path", "kind", "root", "argc", "locals", "upvars", "blocks", "file", "lo", "hi",
                 "raw", "crate")

    def __init__(self, j, crate):
        self.raw = j
        self.crate = crate
        for k in ("path", "kind", "root", "argc", "locals", "upvars", "blocks", "file", "lo", "hi"):
            setattr(self, k, j.get(k))

    def __repr__(self):
        return f"<Body {self.path}>"


class Crate:
    def __init__(self, path):
        with open(path) as f:
            j = json.load(f)
        self.name = j["crate"]
        self.bodies = {}
        for b in j["bodies"]:
            k, i = b["path"], 1
            while k in self.bodies:      # derive output: several local impls with the same path
                i += 1
                k = f"{b['path']}#{i}"
            self.bodies[k] = Body(b, self.name)
        self.adts = {a["path"]: a for a in j["adts"]}
        self.impls = j["impls"]
        self.lost = j["lost"]


def show_place(p):
    s = f"_{p['l']}"
    for e in p["p"]:
        if e[0] == "*":
            s = f"(*{s})"
        elif e[0] == "f":
            s += f".{e[1]}"
        elif e[0] == "i":
            s += f"[_{e[1]}]"
        elif e[0] == "d":
            s += f" as {e[1]}"
        else:
            s += str(e)
    return s


def show_op(o):
    if o["k"] in ("copy", "move"):
        return ("" if o["k"] == "copy" else "mv ") + show_place(o["p"])
    if o["k"] == "const":
        return o.get("fn") or o["v"]
    return o["k"]


def show_rv(r):
    k = r["k"]
    if k == "use":
        return show_op(r["o"])
    if k == "ref":
        return ("&mut " if r["m"] else "&") + show_place(r["p"])
    if k == "bin":
        return f"{r['op']}({show_op(r['a'])}, {show_op(r['b'])})"
    if k == "un":
        return f"{r['op']}({show_op(r['a'])})"
    if k == "cast":
        return f"{show_op(r['o'])} as {r['ty']}"
    if k == "discr":
        return f"discr({show_place(r['p'])})"
    if k == "agg":
        n = r.get("adt") or r.get("def") or r["ak"]
        return f"{n}::{r.get('var','')}{{" + ", ".join(f"{a}: {show_op(o)}" for a, o in zip(r["names"], r["ops"])) + "}"
    return str(r)


def show(b):
    out = [f"fn {b.path} argc={b.argc} {b.file}:{b.lo}-{b.hi}"]
    for i, l in enumerate(b.locals):
        out.append(f"  let _{i}{' ' + l['name'] if 'name' in l else ''}: {l['ty']}")
    for i, bb in enumerate(b.blocks):
        if bb["c"]:
            continue
        out.append(f" bb{i}:")
        for s in bb["st"]:
            if "r" in s:
                if s["r"].get("fake"):
                    continue
                out.append(f"    {show_place(s['p'])} = {show_rv(s['r'])}")
            else:
                out.append(f"    setd {s}")
        t = bb["t"]
        if t["k"] == "call":
            f = t["f"]
            fn = f.get("fnr", {}).get("res") or f.get("fn") or show_op(f)
            out.append(f"    {show_place(t['d'])} = {fn}({', '.join(map(show_op, t['a']))}) -> {t['t']}")
        elif t["k"] == "switch":
            out.append(f"    switch {show_op(t['o'])} {t['arms']} else {t['else']}")
        elif t["k"] == "assert":
            out.append(f"    assert {show_op(t['c'])}=={t['e']} {t['m']} -> {t['t']}")
        else:
            out.append(f"    {t['k']} {t.get('t','')}")
    return "\n".join(out)


if __name__ == "__main__":
    import sys
    c = Crate(sys.argv[1])
    for pat in sys.argv[2:]:
        for p, b in c.bodies.items():
            if pat in p:
                print(show(b))
    if len(sys.argv) == 2:
        for p, b in sorted(c.bodies.items()):
            print(p, len(b.blocks))
