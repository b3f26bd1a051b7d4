"""Whole-entry inlining of MIR.

From an entry function builds one control-flow graph in which every callee of the analysed crates,
every closure whose value can be traced, and the std combinators modelled in models/models.rs are
expanded in place.  What stays a call is an effect or a primitive of the property rules."""

import re

REFL = ("&mut ", "&")


def strip_ref(t):
    t = t.strip()
    while t.startswith("&"):
        t = t[1:].strip()
        if t.startswith("'"):
            t = t.split(" ", 1)[1] if " " in t else t
        if t.startswith("mut "):
            t = t[4:]
    return t


def base_ty(t):
    return strip_ref(t).split("<")[0]


PRIM = {"f64", "f32", "usize", "isize", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "bool", "char"}

def zero(ty):
    return ("const", {"k": "const", "ty": ty, "v": "0.0"} if ty in ("f64", "f32") else {"k": "const", "ty": ty, "n": 0})


# value-preserving calls: result is the first argument (references are transparent)
IDENTITY = {
    "std::ops::Deref::deref", "std::ops::DerefMut::deref_mut",
    "std::iter::IntoIterator::into_iter", "std::iter::Iterator::cloned", "std::iter::Iterator::copied",
    "std::iter::Iterator::by_ref", "std::iter::Iterator::fuse", "std::iter::Iterator::peekable",
    "rayon::iter::IntoParallelIterator::into_par_iter", "rayon::iter::IntoParallelRefIterator::par_iter",
    "rayon::iter::IntoParallelRefMutIterator::par_iter_mut", "rayon::iter::ParallelIterator::cloned",
    "rayon::iter::ParallelIterator::copied",
    "core::slice::<impl [T]>::iter", "core::slice::<impl [T]>::iter_mut", "std::slice::<impl [T]>::to_vec",
    "std::vec::Vec::<T, A>::iter", "std::vec::Vec::<T, A>::iter_mut", "std::vec::Vec::<T, A>::as_slice",
    "std::vec::Vec::<T, A>::as_mut_slice", "std::vec::Vec::<T, A>::into_boxed_slice",
    "ndarray::impl_methods::<impl ndarray::ArrayBase<S, D>>::iter",
    "ndarray::impl_methods::<impl ndarray::ArrayBase<S, D>>::iter_mut",
    "ndarray::impl_methods::<impl ndarray::ArrayBase<S, D>>::to_owned",
    "ndarray::impl_methods::<impl ndarray::ArrayBase<S, D>>::view",
    "ndarray::impl_methods::<impl ndarray::ArrayBase<S, D>>::into_owned",
    "std::option::Option::<&T>::copied", "std::option::Option::<&T>::cloned",
    "std::option::Option::<T>::as_deref",
    "std::option::Option::<T>::as_ref", "std::result::Result::<T, E>::as_ref",
    "std::borrow::ToOwned::to_owned", "std::convert::AsRef::as_ref", "std::borrow::Borrow::borrow",
    "std::string::String::as_str", "std::hint::must_use", "std::boxed::Box::<T>::new",
    "ndarray::impl_1d::<impl ndarray::ArrayBase<S, ndarray::Dim<[usize; 1]>>>::to_vec",
    "ndarray::impl_constructors::<impl ndarray::ArrayBase<S, ndarray::Dim<[usize; 1]>>>::from_vec",
    "ndarray::impl_constructors::<impl ndarray::ArrayBase<S, ndarray::Dim<[usize; 1]>>>::from_iter#",
    "ndarray::arrayformat#", "std::convert::identity", "std::hint::black_box", "std::path::Path::to_path_buf", "std::path::PathBuf::as_path",
    "std::sync::Arc::<T>::clone", "std::string::ToString::to_string", "std::mem::drop#no",
}

_IT = {  # method -> model
    "map": "it_map", "filter": "it_filter", "filter_map": "it_filter_map", "enumerate": "it_enumerate",
    "zip": "it_zip", "chain": "it_chain", "inspect": "it_inspect", "flat_map": "it_flat_map",
    "skip": "it_skip", "take": "it_take", "rev": "it_rev", "step_by": "it_step_by",
    "any": "it_any", "all": "it_all", "find": "it_find", "find_map": "it_find_map", "position": "it_position",
    "for_each": "it_for_each", "try_for_each": "it_try_for_each", "fold": "it_fold",
    "unzip": "it_unzip", "partition": "it_partition",
}
MODELS = {}
for m, f in _IT.items():
    MODELS["std::iter::Iterator::" + m] = f
    MODELS["rayon::iter::ParallelIterator::" + m] = f
    MODELS["rayon::iter::IndexedParallelIterator::" + m] = f
MODELS.pop("rayon::iter::ParallelIterator::fold")
MODELS["rayon::iter::ParallelIterator::find_any"] = "it_find"
MODELS["rayon::iter::ParallelIterator::find_first"] = "it_find"
for m in ("map and_then or_else or and zip map_or map_or_else is_some_and is_none_or is_some is_none unwrap expect "
          "unwrap_or unwrap_or_else unwrap_or_default ok_or ok_or_else filter as_mut take replace "
          "transpose flatten inspect").split():
    MODELS["std::option::Option::<T>::" + m] = "opt_" + m
for m in ("is_multiple_of", "checked_rem"):
    for t in ("usize", "u64"):
        MODELS[f"core::num::<impl {t}>::{m}"] = "us_" + m
MODELS["std::option::Option::<std::result::Result<T, E>>::transpose"] = "opt_transpose"
MODELS["std::option::Option::<std::option::Option<T>>::flatten"] = "opt_flatten"
for m in ("map map_err and_then or_else map_or map_or_else is_ok is_err is_ok_and ok err unwrap expect unwrap_or "
          "unwrap_or_else unwrap_or_default inspect_err").split():
    MODELS["std::result::Result::<T, E>::" + m] = "res_" + m
MODELS["core::bool::<impl bool>::then"] = "bool_then"
MODELS["core::bool::<impl bool>::then_some"] = "bool_then_some"
MODELS["std::mem::take"] = "mem_take"
MODELS["std::iter::repeat_with"] = "repeat_with"
MODELS["pyo3::Python::<'_>::attach"] = "py_attach"
MODELS["pyo3::Python::<'py>::detach"] = "py_detach"
MODELS["std::iter::Extend::extend"] = "vec_extend"
MODELS["std::vec::Vec::<T, A>::retain"] = "vec_retain"
_ND = "ndarray::impl_constructors::<impl ndarray::ArrayBase<S, D>>::"
MODELS[_ND + "from_shape_fn"] = "arr_from_shape_fn"
_ND = "ndarray::impl_methods::<impl ndarray::ArrayBase<S, D>>::"
for m, f in (("mapv", "arr_map"), ("map", "arr_map"), ("mapv_into", "arr_map"), ("mapv_inplace", "arr_map_inplace")):
    MODELS[_ND + m] = f
MODELS["std::option::Option::<T>::as_deref_mut"] = "opt_as_mut"

MARKERS = {"models::" + x for x in ("idx_of", "opaque_cmp_min", "diverge", "pick_first", "mem_replace", "note_skip", "note_take", "note_rev", "note_step")}
ADAPTERS = {"models::" + a: "next_" + a for a in
            "Map Filter FilterMap Enumerate Zip Chain Inspect FlatMap Skip Take Rev StepBy RepeatN".split()}
WRAP = {"models::" + a for a in "Skip Take Rev StepBy".split()}
CALLS = {"std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call"}
OPTRAITS = {"std::ops::Add::add": "Add", "std::ops::Sub::sub": "Sub", "std::ops::Mul::mul": "Mul", "std::ops::Div::div": "Div",
            "std::ops::Rem::rem": "Rem",
            "std::cmp::PartialEq::eq": "Eq", "std::cmp::PartialEq::ne": "Ne", "std::cmp::PartialOrd::lt": "Lt",
            "std::cmp::PartialOrd::le": "Le", "std::cmp::PartialOrd::gt": "Gt", "std::cmp::PartialOrd::ge": "Ge",
            "std::ops::Not::not": "Not", "std::ops::Neg::neg": "Neg"}
OPASSIGN = {"std::ops::AddAssign::add_assign": "Add", "std::ops::SubAssign::sub_assign": "Sub",
            "std::ops::MulAssign::mul_assign": "Mul", "std::ops::DivAssign::div_assign": "Div"}


def mentions(x, local, out):
    """places in a piece of raw MIR that start at the local"""
    if isinstance(x, dict):
        if x.get("l") == local and "p" in x:
            out.append(x)
        for v in x.values():
            mentions(v, local, out)
    elif isinstance(x, list):
        for v in x:
            mentions(v, local, out)


def in_order(body, t):
    """results gathered in parallel only to be gone through in order until the first error: the workers' order of evaluation is not fixed either way, so this is
    the same as collecting them into a Result, except that it is the first error that is returned"""
    cache = body.raw.setdefault("_in_order", {})
    if id(t) in cache:
        return cache[id(t)]
    ok = False
    if base_ty(t["dty"]) == "std::vec::Vec" and (split_args(t["dty"]) or [""])[0].startswith("std::result::Result<") and not t["d"]["p"]:
        loc = t["d"]["l"]
        for _ in range(6):
            use = []
            for bb in body.blocks:
                for s in bb["st"]:
                    r = s.get("r")
                    if r is not None:
                        k = []
                        mentions(r, loc, k)
                        use += [("st", s)] * len(k)
                x = bb["t"]
                k = []
                mentions([x.get("a"), x.get("o"), x.get("c")], loc, k)
                use += [("t", x)] * len(k)
            if len(use) != 1:
                break
            kind, x = use[0]
            if kind == "st" and x["r"].get("k") == "use" and not x["p"]["p"]:
                loc = x["p"]["l"]
                continue
            if kind == "t" and x["k"] == "call" and x["f"].get("fnr") and not x["d"]["p"]:
                nm = x["f"]["fnr"]["path"]
                if nm in ("std::iter::IntoIterator::into_iter",):
                    loc = x["d"]["l"]
                    continue
                ok = nm == "std::iter::Iterator::collect" and base_ty(x["dty"]) == "std::result::Result"
            break
    cache[id(t)] = ok
    return ok


class Node:
    __slots__ = ("id", "st", "t", "ctx", "succ", "pred")

    def __init__(self, i, ctx):
        self.id = i
        self.st = []
        self.t = None
        self.ctx = ctx
        self.succ = []
        self.pred = []


class Ctx:
    """An inlined frame: the body, where it was called from."""
    __slots__ = ("body", "parent", "callspan", "base", "hint", "depth")

    def __init__(self, body, parent, callspan, base, hint=None):
        self.body, self.parent, self.callspan, self.base, self.hint = body, parent, callspan, base, hint
        self.depth = 0 if parent is None else parent.depth + 1

    def chain(self):
        c, out = self, []
        while c:
            out.append(c.body.path)
            c = c.parent
        return out[::-1]

    def user(self):
        """innermost frame that is not a model"""
        c = self
        while c.parent and c.body.crate == "models":
            c = c.parent
        return c


_plain = {}


def plain(p):
    """path without its generic-argument segments"""
    r = _plain.get(p)
    if r is None:
        out, d, i = [], 0, 0
        while i < len(p):
            if d == 0 and p.startswith("::<", i) and not p.startswith("::<impl", i) and " as " not in p[i:match_angle(p, i + 2)]:
                i = match_angle(p, i + 2)
                continue
            out.append(p[i])
            i += 1
        r = _plain[p] = "".join(out)
    return r


def match_angle(p, i):
    d = 0
    while i < len(p):
        if p[i] == "<":
            d += 1
        elif p[i] == ">" and p[i - 1] != "-":
            d -= 1
            if d == 0:
                return i + 1
        i += 1
    return i


class Program:
    def __init__(self, crates):
        self.crates = crates
        self.bodies = {}
        self.adts = {}
        self.check_clones = False   # hand-written Clones are verified to be copies by their own rule
        for c in crates:
            self.bodies.update(c.bodies)
            self.adts.update(c.adts)
        for c in crates[1:]:            # how the first crate writes the impls of the others
            for p, b in c.bodies.items():
                m = re.match(rf"{c.name}::<(\w+)", p)
                if m and c.name != "models" and m.group(1) not in ("std", "core", "alloc", "ndarray", "argmin", "T"):
                    self.bodies.setdefault(f"<{c.name}::" + p[len(c.name) + 3:], b)
        self.convs = None

    def conversion(self, a, b):
        """the body of <b as From<a>>::from, if it belongs to the analysed crates"""
        if self.convs is None:
            self.convs = {}
            for p in self.bodies:
                m = re.search(r"<impl std::convert::From<(.*)> for (.*)>::from$", p)
                if m:
                    self.convs[m.group(1), m.group(2)] = p
                m = re.search(r"<([^<>]*) as std::convert::From<(.*)>>::from$", p)
                if m:
                    self.convs[m.group(2), m.group(1)] = p
        return self.convs.get((a, b))

    def find(self, suffix, multi=False):
        hits = [p for p in self.bodies if p == suffix or p.endswith("::" + suffix)]
        if not hits:
            w = plain(suffix)
            hits = [p for p in self.bodies if plain(p) == w or plain(p).endswith("::" + w)]
        if multi:
            return hits
        return hits[0] if len(hits) == 1 else None


class TooBig(Exception):
    pass


class Inliner:
    def __init__(self, prog, entry, opaque=(), maxdepth=14, maxnodes=40000):
        self.prog = prog
        self.opaque = opaque if callable(opaque) else (lambda p, s=frozenset(opaque): p in s)
        self.maxdepth, self.maxnodes = maxdepth, maxnodes
        self.nodes = []
        self.nlocals = 0
        self.ltype = []     # local id -> (ty, name, ctx)
        self.defs = {}      # local id -> list of ('rv', rvalue) / ('call', term)
        self.partial = set()
        self.inlined = set()
        self.untraced = []
        b = prog.bodies[entry]
        self.entry_body = b
        ctx = Ctx(b, None, None, 0)
        self.ctx0 = ctx
        self.alloc(ctx)
        self.entry = None
        self.rets = []
        work = []
        self.entry = self.expand(ctx, None, None, work)
        while work:
            self.do_call(*work.pop(0), work)
        self.finish()

    # -- frames
    def alloc(self, ctx):
        ctx.base = self.nlocals
        for l in ctx.body.locals:
            self.ltype.append((l["ty"], l.get("name"), ctx))
        self.nlocals += len(ctx.body.locals)

    def newlocal(self, ty, ctx):
        self.ltype.append((ty, None, ctx))
        self.nlocals += 1
        return self.nlocals - 1

    def new(self, ctx):
        n = Node(len(self.nodes), ctx)
        self.nodes.append(n)
        if len(self.nodes) > self.maxnodes:
            raise TooBig(self.entry_body.path)
        return n

    # -- renaming into global locals
    def pl(self, p, base):
        pr = []
        for e in p["p"]:
            if e[0] == "i":
                pr.append(("i", e[1] + base))
            else:
                pr.append(tuple(e))
        return (p["l"] + base, tuple(pr))

    def op(self, o, base):
        if o["k"] in ("copy", "move"):
            return (o["k"], self.pl(o["p"], base))
        if o["k"] == "const":
            return ("const", o)
        return ("const", {"k": "const", "ty": "bool", "v": "rtcheck"})

    def rv(self, r, base):
        k = r["k"]
        if k == "use":
            return ("use", self.op(r["o"], base))
        if k == "ref":
            return ("ref", r["m"], self.pl(r["p"], base))
        if k == "bin":
            return ("bin", r["op"], self.op(r["a"], base), self.op(r["b"], base), r.get("aty", ""))
        if k == "un":
            return ("un", r["op"], self.op(r["a"], base))
        if k == "cast":
            return ("cast", r["ck"], self.op(r["o"], base), r["ty"])
        if k == "discr":
            return ("discr", self.pl(r["p"], base), tuple((a, b) for a, b in r["vars"]))
        if k == "agg":
            return ("agg", r.get("adt") or r.get("def") or r["ak"], r.get("var", ""), tuple(r["names"]),
                    tuple(self.op(o, base) for o in r["ops"]), r["ak"], tuple(r.get("caps", ())))
        if k == "repeat":
            return ("repeat", self.op(r["o"], base), r["n"])
        return ("other", r.get("txt", ""))

    def assign(self, n, dst, rv, span):
        n.st.append((dst, rv, span))
        if not dst[1]:
            self.defs.setdefault(dst[0], []).append(rv)
        elif dst[1][0][0] != "*":
            self.partial.add(dst[0])

    # -- tracing values at inline time
    def trace(self, local, proj=(), fuel=60):
        while fuel:
            fuel -= 1
            while proj and proj[0][0] == "*":
                proj = proj[1:]
            d = self.defs.get(local)
            if not d or len(d) != 1:
                return None
            rv = d[0]
            if rv[0] == "use":
                if rv[1][0] == "const":
                    return rv if not proj else None
                local, proj = rv[1][1][0], tuple(x for x in rv[1][1][1] if x[0] != "*") + proj
            elif rv[0] == "ref":
                local, proj = rv[2][0], tuple(x for x in rv[2][1] if x[0] != "*") + proj
            elif rv[0] == "cast":
                if rv[2][0] == "const":
                    return ("use", rv[2])
                local, proj = rv[2][1][0], tuple(x for x in rv[2][1][1] if x[0] != "*") + proj
            elif rv[0] == "agg":
                while proj and proj[0][0] == "d":
                    proj = proj[1:]
                if not proj:
                    return rv
                if proj[0][0] != "f" or proj[0][1] not in rv[3]:
                    return None
                o = rv[4][rv[3].index(proj[0][1])]
                proj = proj[1:]
                if o[0] == "const":
                    return ("use", o) if not proj else None
                local, proj = o[1][0], tuple(x for x in o[1][1] if x[0] != "*") + proj
            else:
                return rv if not proj else None
        return None

    def trace_op(self, o):
        if o[0] == "const":
            return ("use", o)
        return self.trace(o[1][0], tuple(x for x in o[1][1] if x[0] != "*"))

    # -- expansion
    def expand(self, ctx, dest, cont, work):
        """Adds ctx.body's blocks; return -> assign dest, goto cont.  Returns the entry node id."""
        b = ctx.body
        self.inlined.add(b.path)
        m = {}
        order = []
        st = [0]
        while st:
            i = st.pop()
            if i in m:
                continue
            n = self.new(ctx)
            m[i] = n
            order.append(i)
            t = b.blocks[i]["t"]
            k = t["k"]
            if k in ("goto", "drop", "assert"):
                st.append(t["t"])
            elif k == "call":
                if t["t"] is not None:
                    st.append(t["t"])
            elif k == "switch":
                st.append(t["else"])
                st += [x[1] for x in reversed(t["arms"])]
        base = ctx.base
        pend = []
        for i in order:
            n = m[i]
            bb = b.blocks[i]
            for s in bb["st"]:
                if "r" not in s or s["r"].get("fake"):
                    continue
                self.assign(n, self.pl(s["p"], base), self.rv(s["r"], base), s["s"])
            t = bb["t"]
            k = t["k"]
            if k in ("goto", "drop"):
                n.t = ("goto", m[t["t"]].id)
            elif k == "assert":
                n.t = ("assert", self.op(t["c"], base), t["e"], t["m"], tuple(self.op(o, base) for o in t["ops"]),
                       m[t["t"]].id, t["s"])
            elif k == "switch":
                n.t = ("switch", self.op(t["o"], base), t["ty"], tuple((v, m[x].id) for v, x in t["arms"]), m[t["else"]].id, t["s"])
            elif k == "return":
                if cont is None:
                    n.t = ("return",)
                    self.rets.append(n.id)
                else:
                    self.assign(n, dest, ("use", ("move", (base, ()))), None)
                    n.t = ("goto", cont)
            elif k == "call":
                tgt = m[t["t"]].id if t["t"] is not None else None
                d = self.pl(t["d"], base)
                args = tuple(self.op(o, base) for o in t["a"])
                n.t = ("call", t, args, d, tgt)
                if not d[1]:
                    self.defs.setdefault(d[0], []).append(("call", t, args))
                else:
                    self.partial.add(d[0])
                pend.append((n, t, args, d, tgt))
            else:
                n.t = ("unreachable",)
        work[:0] = [(n, t, args, d, tgt) for n, t, args, d, tgt in pend]
        return m[0].id

    def retarget(self, n, d, rv, tgt, span):
        """replace the call terminator of n by an assignment"""
        self.undef(n, d)
        self.assign(n, d, rv, span)
        n.t = ("goto", tgt) if tgt is not None else ("unreachable",)

    def undef(self, n, d):
        if not d[1]:
            l = self.defs[d[0]]
            for i, x in enumerate(l):
                if x[0] == "call" and x[1] is n.t[1]:
                    del l[i]
                    break

    def inline_body(self, n, body, args, d, tgt, work, span, hint=None, closure=None):
        ctx = Ctx(body, n.ctx, span, 0, hint)
        self.alloc(ctx)
        self.undef(n, d)
        for i, a in enumerate(args):
            self.assign(n, (ctx.base + 1 + i, ()), ("use", a), span)
        if tgt is None:
            t = self.new(n.ctx)
            t.t = ("unreachable",)
            tgt = t.id
        e = self.expand(ctx, d, tgt, work)
        n.t = ("goto", e)

    def recursive(self, ctx, path):
        while ctx:
            if ctx.body.path == path:
                return True
            ctx = ctx.parent
        return False

    def do_call(self, n, t, args, d, tgt, work):
        f = t["f"]
        span = t["fs"]
        r = f.get("fnr")
        if r is None:       # call through a value: fn pointer / fn item in a variable / dyn
            return
        path, res = r["path"], r.get("res")
        aty = t["aty"]
        if n.ctx.depth >= self.maxdepth or path in MARKERS:
            return
        if path == "std::clone::Clone::clone" and not self.userclone(res):
            self.retarget(n, d, ("use", args[0]), tgt, span)
            return
        if self.opaque(path) or (res and self.opaque(res)):
            return
        # closures
        if path in CALLS:
            c = self.trace_op(args[0])
            if c and c[0] == "agg" and c[5] == "closure" and c[1] in self.prog.bodies:
                body = self.prog.bodies[c[1]]
                if not self.recursive(n.ctx, c[1]):
                    tup = args[1]
                    na = [args[0]]
                    for i in range(body.argc - 1):
                        na.append(("move", (tup[1][0], tup[1][1] + (("f", str(i)),))))
                    self.inline_body(n, body, na, d, tgt, work, span)
                    return
            if c and c[0] == "use" and c[1][0] == "const" and c[1][1].get("fnr"):
                k = c[1][1]
                # fn item / tuple-variant constructor used as a function value
                tr = self.trace_op(args[1])
                if tr and tr[0] == "agg":
                    t2 = dict(t)
                    t2["f"] = k
                    t2["aty"] = [""] * len(tr[4])
                    if not d[1]:
                        for i, x in enumerate(self.defs.get(d[0], [])):
                            if x[0] == "call" and x[1] is t:
                                self.defs[d[0]][i] = ("call", t2, tuple(tr[4]))
                    n.t = ("call", t2, tuple(tr[4]), d, tgt)
                    self.do_call(n, t2, tuple(tr[4]), d, tgt, work)
                    return
            self.untraced.append((n.id, path, span))
            return
        # constructor functions of tuple structs / enum variants used as values
        if f.get("ty", "").startswith("fn") and "{" in f.get("ty", "") and self.ctor(n, path, args, d, tgt, t, span):
            return
        if path in IDENTITY or (path in ("std::convert::From::from", "std::convert::Into::into", "std::convert::TryFrom::try_from#") and
                                len(aty) == 1 and aty[0] == t["dty"]):
            if path == "std::string::ToString::to_string" and strip_ref(aty[0]) not in ("str", "std::string::String"):
                return
            self.retarget(n, d, ("use", args[0]), tgt, span)
            return
        if path == "std::default::Default::default" and t["dty"] in PRIM - {"char"}:
            self.retarget(n, d, ("use", zero(t["dty"])), tgt, span)
            return
        if path == "std::convert::From::from" or path == "std::convert::Into::into":
            if len(aty) == 1 and base_ty(t["dty"]) == "ndarray::ArrayBase" and base_ty(strip_ref(aty[0])).split("[")[0] in ("std::vec::Vec", "ndarray::ArrayBase", ""):
                self.retarget(n, d, ("use", args[0]), tgt, span)
                return
            if n.ctx.hint and path == "std::convert::From::from" and n.ctx.body.crate == "models":
                e, fty = n.ctx.hint
                if e == fty:
                    self.retarget(n, d, ("use", args[0]), tgt, span)
                    return
                for cr in self.prog.crates:
                    p = f"{cr.name}::<{fty} as std::convert::From<{e}>>::from"
                    if p in self.prog.bodies:
                        self.inline_body(n, self.prog.bodies[p], args, d, tgt, work, span)
                        return
        if path == "std::convert::Into::into" and len(r.get("args") or ()) == 2:
            p = self.prog.conversion(r["args"][0], r["args"][1])
            if p and not self.opaque(p) and not self.recursive(n.ctx, p):
                self.inline_body(n, self.prog.bodies[p], args, d, tgt, work, span)
                return
        if path in OPTRAITS and all(strip_ref(x) in PRIM for x in aty):
            o = OPTRAITS[path]
            if len(args) == 2:
                rv = ("bin", o, self.der(n, args[0], aty[0]), self.der(n, args[1], aty[1]), strip_ref(aty[0]))
            else:
                rv = ("un", o, self.der(n, args[0], aty[0]))
            self.retarget(n, d, rv, tgt, span)
            return
        if path in OPASSIGN and all(strip_ref(x) in PRIM for x in aty) and args[0][0] != "const":
            p0 = args[0][1]
            tmp = self.newlocal(strip_ref(aty[0]), n.ctx)
            self.undef(n, d)
            self.assign(n, (tmp, ()), ("bin", OPASSIGN[path], ("copy", (p0[0], p0[1] + (("*",),))), self.der(n, args[1], aty[1]), strip_ref(aty[0])), span)
            self.assign(n, (p0[0], p0[1] + (("*",),)), ("use", ("copy", (tmp, ()))), span)
            n.t = ("goto", tgt)
            return
        if path == "std::iter::Iterator::next":
            c = self.trace_op(args[0])
            if c and c[0] == "agg" and c[1] in ADAPTERS and not self.basewrap(c):
                body = self.prog.bodies["models::" + ADAPTERS[c[1]]]
                self.inline_body(n, body, args, d, tgt, work, span)
            return
        model = None
        hint = None
        if path == "std::ops::Try::branch":
            model = {"std::result::Result": "res_branch", "std::option::Option": "opt_branch"}.get(base_ty(aty[0]))
        elif path == "std::ops::FromResidual::from_residual":
            model = {"std::result::Result": "res_from_residual", "std::option::Option": "opt_from_residual"}.get(base_ty(t["dty"]))
            if model == "res_from_residual":
                e = split_args(aty[0])
                g = split_args(t["dty"])
                if len(e) == 2 and len(g) == 2:
                    hint = (e[1], g[1])
        elif path == "rayon::iter::ParallelIterator::collect" and in_order(n.ctx.body, t):
            self.retarget(n, d, ("use", args[0]), tgt, span)
            return
        elif path in ("std::iter::Iterator::collect", "rayon::iter::ParallelIterator::collect",
                      "std::iter::FromIterator::from_iter"):
            bt = base_ty(t["dty"])
            model = {"std::vec::Vec": "it_collect_vec", "std::result::Result": "it_collect_result",
                     "std::option::Option": "it_collect_option", "ndarray::ArrayBase": "it_collect_vec"}.get(bt)
        elif path in ("std::convert::From::from", "std::convert::Into::into") and aty[0] == "bool" and t["dty"] in ("usize", "u64"):
            model = "us_from_bool"
        elif path == "std::iter::Iterator::sum" and t["dty"] == "f64":
            model = "it_sum_f64"
        elif path in MODELS:
            model = MODELS[path]
            if model == "vec_extend" and base_ty(aty[0]) != "std::vec::Vec":
                model = None
        elif path in ("std::cmp::PartialEq::eq", "std::cmp::PartialEq::ne"):
            m = re.fullmatch(r"std::option::Option<(usize|f64|u64|bool)>", strip_ref(aty[0]))
            if m and strip_ref(aty[1]) == strip_ref(aty[0]):
                model = f"opt_{path[-2:]}_{m[1]}"
        if path == "std::iter::Iterator::take" and base_ty(aty[0]) == "std::iter::RepeatWith":
            model = "rw_take"
        if path == "std::mem::take" and t["dty"] in PRIM - {"char"}:
            model, args = "mem_take_of", [args[0], zero(t["dty"])]
        if path in ("std::option::Option::<T>::unwrap_or_default", "std::result::Result::<T, E>::unwrap_or_default") and t["dty"] in PRIM - {"char", "bool"}:
            model = ("opt" if "Option" in path else "res") + "_unwrap_or"
            args = [args[0], zero(t["dty"])]
        if model:
            body = self.prog.bodies["models::" + model]
            self.inline_body(n, body, args, d, tgt, work, span, hint)
            return
        tp = res if res in self.prog.bodies else (path if path in self.prog.bodies else None)
        if tp is None:
            return
        if r.get("rk") == "virtual":
            return
        body = self.prog.bodies[tp]
        if self.opaque(tp) or body.kind.startswith("Const") or self.recursive(n.ctx, tp):
            return
        if r.get("trait") and "res" not in r:
            return      # unresolved trait method: a parameter of the analysis
        if body.raw.get("in_trait") and r.get("trait"):
            return      # default method of a user trait: stays the trait operation
        self.inline_body(n, body, args, d, tgt, work, span)

    def basewrap(self, c, fuel=8):
        """skip/take/rev/step_by directly over a collection: the wrapper is the iterated domain"""
        while c and c[0] == "agg" and c[1] in WRAP and fuel:
            c = self.trace_op(c[4][0])
            fuel -= 1
        return not (c and c[0] == "agg" and c[1] in ADAPTERS)

    def userclone(self, res):
        """a hand-written Clone of the analysed crates is not assumed to be a copy"""
        b = self.prog.bodies.get(res) if res else None
        return self.prog.check_clones and b is not None and not b.raw.get("derived")

    def der(self, n, o, ty):
        # references are transparent except that a mutable reference must be read through
        if o[0] == "const" or not ty.startswith("&mut"):
            return o
        return ("copy", (o[1][0], o[1][1] + (("*",),)))

    def ctor(self, n, path, args, d, tgt, t, span):
        # path like std::option::Option::Some or crate::mod::Enum::Variant
        seg = path.rsplit("::", 1)
        if len(seg) != 2:
            return False
        par, var = seg
        par0 = par.split("::<")[0]
        a = self.prog.adts.get(par0)
        if a and any(v["name"] == var for v in a["vars"]):
            names = tuple(str(i) for i in range(len(args)))
            self.retarget(n, d, ("agg", par0, var, names, args, "adt", ()), tgt, span)
            return True
        if par0 in ("std::option::Option", "std::result::Result") and var in ("Some", "Ok", "Err"):
            self.retarget(n, d, ("agg", par0, var, ("0",), args, "adt", ()), tgt, span)
            return True
        return False

    # -- cleanup: successor lists, prune unreachable
    def finish(self):
        for n in self.nodes:
            n.succ = succs(n.t)
        # loop header merging (filter-style inner search loops)
        self.merge_headers()
        seen = set()
        st = [self.entry]
        while st:
            i = st.pop()
            if i in seen:
                continue
            seen.add(i)
            st += self.nodes[i].succ
        for n in self.nodes:
            n.pred = []
        for i in seen:
            for s in self.nodes[i].succ:
                self.nodes[s].pred.append(i)
        self.reach = seen

    def merge_headers(self):
        pass


def succs(t):
    if t is None:
        return []
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "assert":
        return [t[5]]
    if k == "switch":
        out = []
        for _, x in t[3]:
            if x not in out:
                out.append(x)
        if t[4] not in out:
            out.append(t[4])
        return out
    if k == "call":
        return [t[4]] if t[4] is not None else []
    return []


def split_args(t):
    """top-level generic arguments of a type string"""
    i = t.find("<")
    if i < 0:
        return []
    t = t.replace("->", "=)")
    depth, cur, out = 0, "", []
    for ch in t[i + 1:]:
        if ch in "<[":
            depth += 1
        if ch in ">]":
            if depth == 0 and ch == ">":
                break
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out
