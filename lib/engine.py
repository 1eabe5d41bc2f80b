"""Trace-partitioned abstract interpretation of MIR.

Abstract state = memory (cells holding value trees of value-numbered terms) x value-set store.
States are split at branches that the store cannot decide and merged again at control-flow joins
when they agree; loops are summarised (induction variables, monotone widening), never run.
"""
import sys
from fractions import Fraction
from terms import *
from mir import tsubst, tystr, unify, cty, Missing
import loops

sys.setrecursionlimit(20000)


SKIP = ("skip",)      # result of a call that is to be made again


class Imprecise(Exception):
    pass


class NeedSplit(Exception):
    def __init__(self, poly):
        self.poly = poly


class NeedAssume(Exception):
    """fork the state on a formula, then retry"""

    def __init__(self, f):
        self.f = f


class Agg:
    __slots__ = ("kind", "path", "variant", "fields", "_h")

    def __init__(self, kind, path, variant, fields):
        self.kind, self.path, self.variant, self.fields = kind, path, variant, tuple(fields)
        self._h = None

    def __eq__(self, o):
        return isinstance(o, Agg) and self.kind == o.kind and self.path == o.path and self.variant == o.variant and self.fields == o.fields

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.kind, self.path, self.variant, self.fields))
        return self._h

    def __repr__(self):
        n = (self.path or self.kind)
        n = n.split("::")[-1] if isinstance(n, str) else self.kind
        return "%s#%s(%s)" % (n, self.variant, ", ".join(map(repr, self.fields[:8])) + ("..." if len(self.fields) > 8 else ""))


class Ref:
    __slots__ = ("cell", "path", "mut")

    def __init__(self, cell, path=(), mut=False):
        self.cell, self.path, self.mut = cell, path, mut

    def __eq__(self, o):
        return isinstance(o, Ref) and self.cell == o.cell and self.path == o.path

    def __hash__(self):
        return hash((self.cell, self.path))

    def __repr__(self):
        return "&%s%s" % (self.cell, list(self.path) if self.path else "")


class Sym:
    """opaque value of a (non-scalar) type, named by a term"""
    __slots__ = ("t", "ty")

    def __init__(self, t, ty):
        self.t, self.ty = t, ty

    def __eq__(self, o):
        return isinstance(o, Sym) and self.t is o.t

    def __hash__(self):
        return hash(self.t)

    def __repr__(self):
        return "<%s>" % show(self.t)


class FnV:
    __slots__ = ("ty",)

    def __init__(self, ty):
        self.ty = ty

    def __eq__(self, o):
        return isinstance(o, FnV) and self.ty == o.ty

    def __hash__(self):
        return hash(self.ty)

    def __repr__(self):
        return "fn:%s" % (self.ty[2] if self.ty[0] == "fn" else self.ty[1])


class Str:
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def __eq__(self, o):
        return isinstance(o, Str) and self.s == o.s

    def __hash__(self):
        return hash(("str", self.s))

    def __repr__(self):
        return repr(self.s)


UNIT = Agg("tuple", None, 0, ())
OPTION = "core::option::Option"
RESULT = "core::result::Result"
ORDERING = "core::cmp::Ordering"


def some(v):
    return Agg("adt", OPTION, 1, (v,))


NONE = Agg("adt", OPTION, 0, ())


def tup(*vs):
    return Agg("tuple", None, 0, vs)


INT_RANGE = {}
for _b in (8, 16, 32, 64, 128):
    INT_RANGE[("int", _b)] = (-(1 << (_b - 1)), (1 << (_b - 1)) - 1)
    INT_RANGE[("uint", _b)] = (0, (1 << _b) - 1)
INT_RANGE[("char",)] = (0, 0x10FFFF)


class State:
    __slots__ = ("mem", "store", "ev", "notes")

    def __init__(self, mem=None, store=None, ev=(), notes=()):
        self.mem = mem if mem is not None else {}
        self.store = store or Store()
        self.ev = ev
        self.notes = notes

    def copy(self):
        return State(dict(self.mem), self.store, self.ev, self.notes)

    def with_store(self, s):
        return State(dict(self.mem), s, self.ev, self.notes)


class Panic:
    __slots__ = ("kind", "where", "state", "msg")

    def __init__(self, kind, where, state, msg=""):
        self.kind, self.where, self.state, self.msg = kind, where, state, msg

    def __repr__(self):
        return "panic(%s at %s)" % (self.kind, self.where)


class Exit:
    __slots__ = ("state", "value")

    def __init__(self, state, value):
        self.state, self.value = state, value

    def __repr__(self):
        return "exit(%r | %r)" % (self.value, {k: v for k, v in self.state.store.c.items()})


WRAP = {"date", "dt", "dur", "enumof"}      # terms op(poly): locations whose content is the polynomial


WRAP_DOM = {}      # op -> the values such a wrapped polynomial can have


def wrap_fact(st, path, p):
    """store refined by the type invariant of the value written at a wrapped location"""
    if path and path[-1][0] == "w" and path[-1][1] in WRAP_DOM and isinstance(p, Poly):
        return st.refine(p, WRAP_DOM[path[-1][1]]) or st
    return st


def wrapped(v):
    return isinstance(v, Sym) and v.t.op in WRAP and len(v.t.args) >= 1 and isinstance(v.t.args[0], Poly)


def mk_agg(*a):
    return mk("agg", *a)


class Phis(dict):
    """loop-carried places, and relations between them"""
    relations = ()
    signs = ()

    mixed = ()
    tried = False

    def __init__(self):
        self.seen = set()
        self.mixed = []


class Engine:
    def __init__(self, facts, overrides=None, opaque=None, max_states=4000, max_depth=40, inline=None, unroll=0, merge=True):
        self.F = facts
        self.overrides = overrides or {}   # fn key -> model(engine, state, args, site) -> [(state, value)]
        self.opaque = opaque or set()      # fn keys treated as uninterpreted
        self.provided = set()              # provided trait methods run on unknown implementors too
        self.max_states = max_states
        self.max_depth = max_depth
        self.unroll = unroll
        self.merge = merge
        self.fid = 0
        self.frames = {}
        self.visited = set()               # functions analysed
        self.calls = 0
        self.blocks_done = 0
        self.panics = []
        self.unmodelled = set()
        self.opq = 0
        self.on_event = None
        self.step_limit = 2_000_000
        self.struct_field = {}             # adt key -> f(sym, i): fields of symbolic structs with structure
        self.struct_norm = {}              # adt key -> f(state, agg): canonical form of a struct value
        import models
        self.std = models.STD
        self.models = models

    # -- symbolic values ---------------------------------------------------------------------------
    def value_of(self, t, ty):
        """the value denoted by term t at type ty"""
        k = ty[0]
        if k in ("int", "uint", "char"):
            lo, hi = INT_RANGE[ty if k != "char" else ("char",)]
            if t.op == "var" and t.sort == "int":
                return P(t)
            return P(mk("ty", t, lo, hi, sort="int"))
        if k == "float":
            if t.op == "var" and t.sort == "real":
                return P(t)
            return P(mk("ty", t, None, None, sort="real"))
        if k == "bool":
            return cmp("==", P(mk("ty", t, 0, 1, sort="int")) - 1, True)
        if k == "ref" or k == "ptr":
            if ty[1] == ("str",):
                return Sym(t, ty)
            return Ref(("S", t, ty[1]))
        if k == "tuple":
            return Agg("tuple", None, 0, [self.value_of(mk("fld", t, 0, i), x) for i, x in enumerate(ty[1])])
        if k == "fn":
            return FnV(ty)
        if k == "adt":
            a = self.F.adts.get(ty[1])
            if a is not None and not a["enum"] and a["key"].startswith(self.F.crate):
                return Sym(t, ty)
        if k == "array" and ty[2] is not None and ty[2] <= 16:
            return Agg("array", None, 0, [self.value_of(mk("elem", t, P(i)), ty[1]) for i in range(ty[2])])
        return Sym(t, ty)

    def sym(self, name, ty):
        k = ty[0]
        if k in ("int", "uint", "char"):
            lo, hi = INT_RANGE[ty if k != "char" else ("char",)]
            return var(name, "int", lo, hi)
        if k == "float":
            return var(name, "real")
        if k == "bool":
            return cmp("==", var(name, "int", 0, 1) - 1, True)
        return self.value_of(mk("var", name, None, None), ty)

    def enum_info(self, ty):
        return self.F.adts.get(ty[1])

    def discr_of(self, v):
        """discriminant poly of an enum value"""
        if isinstance(v, Agg):
            if v.path == ORDERING:
                return const(v.variant - 1)
            a = self.F.adts.get(v.path)
            if a is None:
                return const(v.variant)
            return const(a["vs"][v.variant][1])
        if isinstance(v, Sym):
            if v.t.op == "enumof":
                return v.t.args[0]
            a = self.F.adts.get(v.ty[1]) if v.ty[0] == "adt" else None
            if a is not None:
                ds = tuple(x[1] for x in a["vs"])
                return P(mk("ty", mk("discr", v.t), ds, None, sort="int"))
            if v.ty[0] == "adt" and v.ty[1] == ORDERING:
                return P(mk("ty", mk("discr", v.t), -1, 1, sort="int"))
            return P(mk("ty", mk("discr", v.t), 0, 1, sort="int"))
        raise Imprecise("discriminant of %r" % (v,))

    def variant_index(self, ty_key, d):
        a = self.F.adts.get(ty_key)
        if ty_key == ORDERING:
            return d + 1
        if a is None:
            return d
        for i, x in enumerate(a["vs"]):
            if x[1] == d:
                return i
        raise Imprecise("no variant with discriminant %s in %s" % (d, ty_key))

    def field_ty(self, ty, variant, i):
        if ty[0] == "adt":
            a = self.F.adts.get(ty[1])
            if a is None:
                if ty[1] == RESULT:
                    return ty[2][variant]
                return ("other", "?")
            v = a["vs"][variant if variant is not None else 0]
            fty = v[2][i][1]
            return tsubst(fty, dict(zip(a["generics"], ty[2])))
        if ty[0] == "tuple":
            return ty[1][i]
        return ("other", "?")

    def proj_field(self, v, variant, i, st=None):
        if isinstance(v, Agg):
            if v.kind in ("adt", "tuple", "closure", "box", "it"):
                if variant is not None and v.kind == "adt" and v.variant != variant:
                    raise Imprecise("downcast of %r to variant %s" % (v, variant))
                if i < len(v.fields):
                    return v.fields[i]
            raise Imprecise("field %d of %r" % (i, v))
        if isinstance(v, Sym):
            if v.ty[0] == "adt" and v.ty[1] in self.struct_field:
                return self.struct_field[v.ty[1]](v, i)
            fty = self.field_ty(v.ty, variant, i)
            return self.value_of(mk("fld", v.t, variant if variant is not None else 0, i), fty)
        raise Imprecise("field %d of %r" % (i, v))

    def expand(self, v):
        """Sym struct -> Agg with one term per field"""
        if isinstance(v, Sym) and v.ty[0] == "adt":
            a = self.F.adts.get(v.ty[1])
            if a is not None and not a["enum"]:
                return Agg("adt", v.ty[1], 0, [self.proj_field(v, None, i) for i in range(len(a["vs"][0][2]))])
        raise Imprecise("cannot expand %r" % (v,))

    # -- memory ------------------------------------------------------------------------------------
    def load_cell(self, st, cell):
        if cell in st.mem:
            return st.mem[cell]
        if cell[0] == "S":
            v = self.value_of(mk("deref", cell[1]), cell[2])
            st.mem[cell] = v
            return v
        raise Imprecise("read of uninitialised cell %r" % (cell,))

    def read(self, st, cell, path):
        v = self.load_cell(st, cell)
        return self.read_path(st, v, path)

    def read_path(self, st, v, path):
        i = 0
        n = len(path)
        while i < n:
            e = path[i]
            if e[0] == "v":
                nx = path[i + 1] if i + 1 < n else None
                if nx is not None and nx[0] == "f":
                    v = self.proj_field(v, e[1], nx[1], st)
                    i += 2
                    continue
                i += 1
                continue
            if e[0] == "f":
                v = self.proj_field(v, None, e[1], st)
            elif e[0] == "i":
                v = self.index(st, v, e[1])
            elif e[0] == "w":
                if not (wrapped(v) and v.t.op == e[1]):
                    raise Imprecise("not a %s: %r" % (e[1], v))
                v = v.t.args[0]
            else:
                raise Imprecise("projection %r" % (e,))
            i += 1
        return v

    def length(self, st, v):
        if isinstance(v, Agg):
            if v.kind in ("array", "vec"):
                return const(len(v.fields))
            if v.kind == "box":
                return self.length(st, self.read(st, v.fields[0].cell, v.fields[0].path))
            raise Imprecise("length of %r" % (v,))
        if isinstance(v, Ref):
            return self.length(st, self.read(st, v.cell, v.path))
        if isinstance(v, Sym):
            if v.ty[0] == "array" and v.ty[2] is not None:
                return const(v.ty[2])
            return self.len_term(v.t)
        raise Imprecise("length of %r" % (v,))

    def len_term(self, t):
        if t.op == "push":
            return self.len_term(t.args[0]) + 1
        if t.op == "insert":
            return self.len_term(t.args[0]) + 1
        if t.op == "setelem":
            return self.len_term(t.args[0])
        if t.op == "mapvec":
            return P(t.args[0])
        if t.op == "vecof":
            return const(len(t.args))
        if t.op == "popped":
            return self.len_term(t.args[0]) - 1
        if t.op in ("sorted", "mutated_same_len"):
            return self.len_term(t.args[0])
        if t.op == "concat":
            return self.len_term(t.args[0]) + self.len_term(t.args[1])
        if t.op == "filtermap":
            return loops.seq_len(t)
        return P(mk("len", t, sort="int"))

    def elem_ty(self, ty):
        if ty[0] in ("array", "slice"):
            return ty[1]
        if ty[0] == "adt" and ty[2]:
            return ty[2][0]
        return ("other", "?")

    def index(self, st, v, idx):
        idx = P(idx)
        if isinstance(v, Agg) and v.kind in ("array", "vec"):
            d = st.store.bounds(idx)
            s = d.singleton()
            if s is not None:
                if 0 <= s < len(v.fields):
                    return v.fields[int(s)]
                raise Imprecise("index %s out of range" % s)
            n = len(v.fields)
            if n and all(isinstance(x, Poly) and x.is_const() and isinstance(x.const(), int) for x in v.fields):
                return P(mk("tab", tuple(x.const() for x in v.fields), idx, sort="int"))
            if n and all(isinstance(x, Poly) and x.is_const() for x in v.fields):
                return P(mk("tab", tuple(x.const() for x in v.fields), idx, sort="real"))
            if n and all(x is TRUE or x is FALSE for x in v.fields):
                return cmp("==", P(mk("tab", tuple(int(x is TRUE) for x in v.fields), idx, sort="int")) - 1, True)
            if d.values(600) is not None:
                raise NeedSplit(idx)
            raise Imprecise("index %r of %r" % (idx, v))
        if isinstance(v, Sym):
            return self.elem_of(st, v.t, idx, self.elem_ty(v.ty))
        raise Imprecise("index of %r" % (v,))

    def elem_of(self, st, t, idx, ety):
        """element idx of the sequence term t"""
        while True:
            if t.op == "push":
                n = self.len_term(t.args[0])
                if st.store.equal(idx, n):
                    return self.unterm(t.args[1], ety)
                if st.store.truth(cmp("<", idx - n, True)) is True:
                    t = t.args[0]
                    continue
            if t.op == "setelem":
                if st.store.equal(idx, t.args[1]):
                    return self.unterm(t.args[2], ety)
                if st.store.truth(cmp("==", idx - t.args[1], True)) is False:
                    t = t.args[0]
                    continue
            if t.op == "vecof":
                s = st.store.bounds(idx).singleton()
                if s is not None and 0 <= s < len(t.args):
                    return self.unterm(t.args[int(s)], ety)
            if t.op == "mapvec":
                r = loops.inst(t, idx)
                for _ in range(8):
                    cs = loops.conds_of(r, [])
                    if not cs:
                        break
                    tr = st.store.truth(cs[0])
                    if tr is None:
                        raise NeedAssume(cs[0])
                    r = loops.resolve_ites(r, cs[0], tr)
                return self.unterm(r, ety)
            if t.op == "concat":
                n = self.len_term(t.args[0])
                if st.store.truth(cmp("<", idx - n, True)) is True:
                    t = t.args[0]
                    continue
                if st.store.truth(cmp(">=", idx - n, True)) is True:
                    idx = idx - n
                    t = t.args[1]
                    continue
                raise NeedAssume(cmp("<", idx - n, True))
            if t.op == "insert" and t.args[1] == ZERO:
                tr = st.store.truth(cmp("==", idx, True))
                if tr is True:
                    return self.unterm(t.args[2], ety)
                if tr is False:
                    idx = idx - 1
                    t = t.args[0]
                    continue
                raise NeedAssume(cmp("==", idx, True))
            if t.op == "popped":
                t = t.args[0]
                continue
            break
        return self.value_of(mk("elem", t, idx), ety)

    def write_path(self, st, v, path, new):
        if not path:
            return new
        e = path[0]
        if e[0] == "w":
            return Sym(mk(v.t.op, new, *v.t.args[1:], sort=v.t.sort), v.ty)
        if e[0] == "v":
            nx = path[1]
            if isinstance(v, Sym):
                # force the variant
                a = self.F.adts.get(v.ty[1])
                n = len(a["vs"][e[1]][2]) if a else 1
                v = Agg("adt", v.ty[1], e[1], [self.proj_field(v, e[1], i) for i in range(n)])
            fs = list(v.fields)
            fs[nx[1]] = self.write_path(st, fs[nx[1]], path[2:], new)
            return Agg(v.kind, v.path, v.variant, fs)
        if e[0] == "f":
            if isinstance(v, Sym):
                v = self.expand(v)
            if v is None:
                raise Imprecise("write into uninitialised aggregate")
            fs = list(v.fields)
            fs[e[1]] = self.write_path(st, fs[e[1]], path[1:], new)
            r = Agg(v.kind, v.path, v.variant, fs)
            nf = self.struct_norm.get(v.path) if v.kind == "adt" else None
            return nf(st, r) if nf is not None else r
        if e[0] == "i":
            idx = P(e[1])
            if isinstance(v, Agg):
                s = st.store.bounds(idx).singleton()
                if s is None:
                    raise NeedSplit(idx)
                fs = list(v.fields)
                fs[int(s)] = self.write_path(st, fs[int(s)], path[1:], new)
                return Agg(v.kind, v.path, v.variant, fs)
            if isinstance(v, Sym):
                old = None
                if len(path) > 1:
                    old = self.index(st, v, idx)
                nv = self.write_path(st, old, path[1:], new)
                return Sym(mk("setelem", v.t, idx, self.term(st, nv)), v.ty)
        raise Imprecise("write %r into %r" % (path, v))

    def write(self, st, cell, path, new):
        if not path:
            st.mem[cell] = new
            return
        v = self.load_cell(st, cell) if (cell in st.mem or cell[0] == "S") else None
        if v is None:
            # first write to a field of an uninitialised local tuple/struct: not produced by MIR at this level
            raise Imprecise("partial initialisation")
        st.mem[cell] = self.write_path(st, v, path, new)

    # -- terms of values ---------------------------------------------------------------------------
    def term(self, st, v):
        """canonical term for a value tree (references are followed)"""
        if isinstance(v, (Poly,)):
            return v
        if isinstance(v, T):
            return v
        if isinstance(v, Sym):
            return v.t
        if isinstance(v, Agg):
            if v.kind == "vec":
                return mk("vecof", *[self.term(st, f) for f in v.fields])
            if v.kind == "box":
                return self.term(st, v.fields[0])
            fs = [self.term(st, f) for f in v.fields]
            # a struct all of whose fields are the projections of one term is that term
            if v.kind == "adt" and fs:
                a = self.F.adts.get(v.path)
                if a is not None and not a["enum"]:
                    base = None
                    ok = True
                    for i, f in enumerate(fs):
                        g = f
                        if isinstance(g, Poly):
                            g = g.atom()
                        if isinstance(g, T) and g.op == "ty":
                            g = g.args[0]
                        if isinstance(g, T) and g.op == "fld" and g.args[1] == 0 and g.args[2] == i and (base is None or g.args[0] is base):
                            base = g.args[0]
                        else:
                            ok = False
                            break
                    if ok:
                        return base
            return (CTOR.get("agg") or mk_agg)(v.kind, v.path, v.variant, *fs)
        if isinstance(v, Ref):
            try:
                return self.term(st, self.read(st, v.cell, v.path))
            except Imprecise:
                return mk("addr", repr(v))
        if isinstance(v, Str):
            return mk("str", v.s)
        if isinstance(v, FnV):
            return mk("fnv", v.ty)
        if v is None:
            return mk("uninit")
        raise Imprecise("term of %r" % (v,))

    def unterm(self, t, ty):
        """inverse of term(), at a known type"""
        if isinstance(t, Poly):
            return t
        if isinstance(t, T):
            if t.sort == "bool":
                return t
            if t.op == "agg":
                kind, path, variant = t.args[:3]
                fs = []
                for i, f in enumerate(t.args[3:]):
                    if kind == "adt":
                        fty = self.field_ty(ty if ty[0] == "adt" else ("adt", path, ()), variant, i)
                    elif kind == "tuple" and ty[0] == "tuple":
                        fty = ty[1][i]
                    else:
                        fty = ("other", "?")
                    fs.append(self.unterm(f, fty))
                return Agg(kind, path, variant, fs)
            if t.op == "str":
                return Str(t.args[0])
            if t.op == "fnv":
                return FnV(t.args[0])
            return self.value_of(t, ty)
        raise Imprecise("unterm")

    # -- places / operands -------------------------------------------------------------------------
    def place(self, fr, st, p):
        cell = ("L", fr.id, p["l"])
        path = ()
        for e in p["p"]:
            k = e[0]
            if k == "d":
                v = self.read(st, cell, path)
                hops = 0
                while isinstance(v, Agg) and v.kind == "box":
                    v = v.fields[0]
                if isinstance(v, Sym) and v.ty[0] in ("adt",) and v.ty[1].endswith("boxed::Box"):
                    v = Ref(("S", v.t, v.ty[2][0]))
                if isinstance(v, Sym) and v.ty[0] in ("ref", "ptr"):
                    v = Ref(("S", v.t, v.ty[1]))
                if isinstance(v, Str) or isinstance(v, Agg) and v.kind == "str":
                    c = ("K", v)
                    st.mem[c] = v
                    v = Ref(c)
                if not isinstance(v, Ref):
                    raise Imprecise("deref of %r" % (v,))
                cell, path = v.cell, v.path
            elif k == "f":
                path = path + (("f", e[1]),)
            elif k == "v":
                path = path + (("v", e[1]),)
            elif k == "i":
                path = path + (("i", st.mem[("L", fr.id, e[1])]),)
            elif k == "ci":
                if e[3]:
                    v = self.read(st, cell, path)
                    path = path + (("i", self.length(st, v) - e[1]),)
                else:
                    path = path + (("i", const(e[1])),)
            else:
                raise Imprecise("projection %s" % k)
        return cell, path

    def const_value(self, v, ty, fr=None):
        if "i" in v:
            return const(int(v["i"]))
        if "b" in v:
            return TRUE if v["b"] else FALSE
        if "f" in v:
            return fconst(v["f"])
        if "c" in v:
            return const(v["c"])
        if "s" in v:
            return Str(v["s"])
        if "arr" in v:
            et = ty[1] if ty[0] in ("array", "slice") else ("other", "?")
            return Agg("array", None, 0, [self.const_value(x, et) for x in v["arr"]])
        if "tup" in v:
            return Agg("tuple", None, 0, [self.const_value(x, ty[1][i]) for i, x in enumerate(v["tup"])])
        if "adt" in v:
            return Agg("adt", v["adt"], v["v"], [self.const_value(x, self.field_ty(ty, v["v"], i)) for i, x in enumerate(v["fs"])])
        if "ref" in v:
            inner = self.const_value(v["ref"], ty[1])
            return ("constref", inner)
        if "zst" in v:
            return UNIT if ty[0] != "fn" else FnV(ty)
        raise Imprecise("constant %r" % (v,))

    def operand(self, fr, st, o):
        k = o["k"]
        if k in ("copy", "move"):
            cell, path = self.place(fr, st, o["p"])
            return self.read(st, cell, path)
        if k == "const":
            ty = tsubst(fr.cty(o), fr.subst)
            if ty[0] == "fn":
                return FnV(ty)
            if ty[0] == "closure":
                return Agg("closure", (ty[1], ty[2]), 0, ())
            if "v" in o:
                v = self.const_value(o["v"], ty)
                return self.bind_const(st, v)
            if "promoted" in o:
                fn = self.F.fns.get(o.get("item"))
                if fn is not None:
                    return self.eval_promoted(fr, st, fn, o["promoted"])
            return Sym(mk("const", o.get("item") or str(sorted(o))), ty)
        if k == "rtcheck":
            return TRUE if "Overflow" in o["s"] else FALSE
        raise Imprecise("operand %s" % k)

    def bind_const(self, st, v):
        if isinstance(v, tuple) and v and v[0] == "constref":
            inner = self.bind_const(st, v[1])
            if isinstance(inner, Str):
                return inner
            c = ("K", inner)
            st.mem[c] = inner
            return Ref(c)
        if isinstance(v, Agg):
            fs = [self.bind_const(st, f) for f in v.fields]
            return Agg(v.kind, v.path, v.variant, fs)
        return v

    def eval_promoted(self, fr, st, fn, idx):
        body = fn.promoted[idx]
        f2 = Frame(self, fn, body, fr.subst)
        res = self.exec_body(f2, st, [], site="promoted")
        if len(res) != 1:
            raise Imprecise("promoted constant")
        s2, v = res[0]
        st.mem.update(s2.mem)
        return v

    # -- arithmetic --------------------------------------------------------------------------------
    def binop(self, st, op, a, b, ty):
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if isinstance(a, Ref) or isinstance(b, Ref):
            if base in ("Eq", "Ne") and (isinstance(a, Poly) and a.is_const() and a.const() == 0 or isinstance(b, Poly) and b.is_const() and b.const() == 0):
                return FALSE if base == "Eq" else TRUE          # a reference is not null
            if base == "BitAnd" and isinstance(a, Ref) and isinstance(b, Poly):
                return const(0)                                 # a reference is aligned
            if base in ("Eq", "Ne"):
                eq = TRUE if a == b else batom("ptreq", self.term(st, a), self.term(st, b))
                return eq if base == "Eq" else bnot(eq)
        if ty[0] == "bool":
            a, b = self.as_bool(a), self.as_bool(b)
            if base == "BitAnd":
                return band(a, b)
            if base == "BitOr":
                return bor(a, b)
            if base in ("BitXor", "Ne"):
                return bor(band(a, bnot(b)), band(bnot(a), b))
            if base == "Eq":
                return bor(band(a, b), band(bnot(a), bnot(b)))
            raise Imprecise("bool op " + op)
        if not isinstance(a, Poly) or not isinstance(b, Poly):
            if base in ("Eq", "Ne"):
                ta, tb = self.term(st, a), self.term(st, b)
                eq = TRUE if ta == tb else batom("eq", ta, tb)
                return eq if base == "Eq" else bnot(eq)
            raise Imprecise("binop %s on %r, %r" % (op, a, b))
        integer = ty[0] in ("int", "uint", "char")
        if base in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            rel = {"Eq": "==", "Ne": "!=", "Lt": "<", "Le": "<=", "Gt": ">", "Ge": ">="}[base]
            return cmp(rel, a - b, integer)
        if base in ("Add", "Sub", "Mul"):
            r = a + b if base == "Add" else a - b if base == "Sub" else a * b
            if integer:
                lo, hi = INT_RANGE[ty]
                if "WithOverflow" in op:
                    if r.is_const():
                        ov = FALSE if lo <= r.const() <= hi else TRUE
                    else:
                        ov = bor(cmp("<", r - lo, True), cmp(">", r - hi, True))
                    return tup(r, ov)
                d = st.store.bounds(r)
                if d.inter(drange(lo, hi)) == d:
                    return r
                return P(mk("wrap", r, lo, hi, sort="int"))
            return r
        if base in ("Div", "Rem"):
            if integer:
                return iexpr("idiv" if base == "Div" else "irem", a, b)
            if base == "Div":
                return a / b
            return P(mk("frem", a, b, sort="real"))
        if base == "Cmp":
            return self.models.ordering(st, a - b, integer)
        if base in ("BitAnd", "BitOr", "BitXor", "Shl", "Shr"):
            if a.is_const() and b.is_const():
                x, y = a.const(), b.const()
                return const({"BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y, "Shl": lambda: x << y, "Shr": lambda: x >> y}[base]())
            if base == "BitAnd" and b.is_const() and b.const() >= 0 and (b.const() & (b.const() + 1)) == 0 and st.store.bounds(a).lo()[0] >= 0:
                return iexpr("irem", a, b + 1)
            if base == "Shr" and b.is_const() and st.store.bounds(a).lo()[0] >= 0:
                return iexpr("idiv", a, const(1 << b.const()))
            if base == "Shl" and b.is_const():
                r = a * const(1 << b.const())
                return r
            return P(mk("bit" + base, a, b, sort="int"))
        raise Imprecise("binop " + op)

    def as_bool(self, v):
        if isinstance(v, T) and v.sort == "bool":
            return v
        if isinstance(v, Poly):
            return cmp("!=", v, True)
        raise Imprecise("not a bool: %r" % (v,))

    def cast(self, st, ck, v, frm, to):
        if ck.startswith("IntToInt"):
            if isinstance(v, T) and v.sort == "bool":
                if v is TRUE:
                    return ONE
                if v is FALSE:
                    return ZERO
                tv = st.store.truth(v)
                if tv is not None:
                    return ONE if tv else ZERO
                if st.store.fd is not None:
                    raise NeedAssume(v)
                return loops.ind(v)
            lo, hi = INT_RANGE[to]
            d = st.store.bounds(v)
            if d.inter(drange(lo, hi)) == d:
                return v
            f = bor(cmp("<", v - lo, True), cmp(">", v - hi, True))
            tr = st.store.truth(f)
            if tr is None:
                raise NeedAssume(f)
            if tr is False:
                return v
            return P(mk("wrap", v, lo, hi, sort="int"))
        if ck.startswith("IntToFloat"):
            return v
        if ck.startswith("FloatToInt"):
            lo, hi = INT_RANGE[to]
            if v.is_const():
                c = v.const()
                import math
                return const(max(lo, min(hi, math.trunc(c))))
            return P(mk("trunc", v, lo, hi, sort="int"))
        if ck.startswith("FloatToFloat"):
            return v
        return v  # pointer coercions, unsizing, transmute of pointers

    def rvalue(self, fr, st, r):
        k = r["k"]
        if k == "use":
            return self.operand(fr, st, r["o"])
        if k == "bin":
            a = self.operand(fr, st, r["a"])
            b = self.operand(fr, st, r["b"])
            return self.binop(st, r["op"], a, b, tsubst(fr.cty(r), fr.subst))
        if k == "un":
            a = self.operand(fr, st, r["a"])
            op = r["op"]
            if op == "Not":
                if isinstance(a, T):
                    return bnot(a)
                return P(mk("bitnot", a, sort="int"))
            if op == "Neg":
                return -a
            if op == "PtrMetadata":
                if isinstance(a, Ref):
                    return self.length(st, self.read(st, a.cell, a.path))
                return self.length(st, a)
            raise Imprecise("unop " + op)
        if k in ("ref", "rawptr"):
            cell, path = self.place(fr, st, r["p"])
            # normalise indices to the value-numbered form
            return Ref(cell, path, r.get("m", False))
        if k == "cast":
            v = self.operand(fr, st, r["o"])
            return self.cast(st, r["ck"], v, tsubst(fr.cty2(r, "from"), fr.subst), tsubst(fr.cty(r), fr.subst))
        if k == "discr":
            cell, path = self.place(fr, st, r["p"])
            return self.discr_of(self.read(st, cell, path))
        if k == "agg":
            ops = [self.operand(fr, st, o) for o in r["ops"]]
            ak = r["ak"]
            if ak == "tuple":
                return Agg("tuple", None, 0, ops)
            if ak == "array":
                return Agg("array", None, 0, ops)
            if isinstance(ak, dict) and "adt" in ak:
                r = Agg("adt", ak["adt"], ak["v"], ops)
                nf = self.struct_norm.get(r.path)
                return nf(st, r) if nf is not None else r
            if isinstance(ak, dict) and "closure" in ak:
                return Agg("closure", (ak["closure"], tuple(tsubst(cty(x), fr.subst) for x in ak["a"])), 0, ops)
            raise Imprecise("aggregate")
        if k == "repeat":
            v = self.operand(fr, st, r["o"])
            if r["n"] is not None and r["n"] <= 512:
                return Agg("array", None, 0, [v] * r["n"])
            raise Imprecise("repeat")
        raise Imprecise("rvalue %s" % r.get("s", k))

    # -- control flow ------------------------------------------------------------------------------
    def run(self, fn, args, st=None, subst=None):
        """analyse fn on abstract arguments; returns list of Exit; panics are collected in self.panics"""
        st = st.copy() if st is not None else State()
        self.panics = []
        fr = Frame(self, fn, fn.body, subst or {})
        res = self.exec_body(fr, st, list(args), site=fn.nice())
        return [Exit(s, v) for s, v in res]

    def call_fn(self, fn, st, args, subst, depth, site):
        if depth > self.max_depth:
            raise Imprecise("call depth at %s" % fn.nice())
        ov = self.overrides.get(fn.key)
        if ov is not None:
            r = ov(self, st, args, site, subst)
            if r is not NotImplemented:
                return r
        if fn.key in self.opaque:
            return self.opaque_call(st, fn.key, args, self.ret_ty(fn, subst))
        if (fn.trait or "").endswith("::clone::Clone") and fn.name == "clone" and isinstance(args[0], Ref) and self.faithful_clone(fn):
            self.visited.add(fn.key)
            return [(st, self.read(st, args[0].cell, args[0].path))]
        fr = Frame(self, fn, fn.body, subst)
        fr.depth = depth
        return self.exec_body(fr, st, args, site)

    def faithful_clone(self, fn):
        """this implementation of Clone gives back the value itself, for every value (analysed once)"""
        memo = self.__dict__.setdefault("clones", {})
        if fn.key in memo:
            return memo[fn.key]
        memo[fn.key] = True      # by induction for the parts of a value of a recursive type
        np, steps = len(self.panics), self.blocks_done
        try:
            st = State()
            x = self.sym("cloned value", fn.self_ty)
            cell = ("H", "cloned value")
            st.mem[cell] = x
            fr = Frame(self, fn, fn.body, {})
            fr.depth = 1
            ok = isinstance(x, Sym)
            for s, v in self.exec_body(fr, st, [Ref(cell, (), False)], fn.nice()) if ok else ():
                ok = ok and self.same_value(s, v, x)
            ok = ok and len(self.panics) == np
        except (Imprecise, NeedSplit, NeedAssume):
            ok = False
        del self.panics[np:]
        self.blocks_done = steps
        memo[fn.key] = ok
        return ok

    def same_value(self, s, v, x):
        """v is the symbolic value x, or x taken apart and put together again"""
        if isinstance(v, Sym) and v.t is x.t:
            return True
        try:
            t = self.term(s, v)
            if t is x.t:
                return True
            if isinstance(v, Agg) and v.kind == "adt" and x.ty[0] == "adt" and v.path == x.ty[1]:
                a = self.F.adts.get(v.path)
                if a is not None and len(a["vs"]) > 1 and s.store.bounds(self.discr_of(x)).singleton() != a["vs"][v.variant][1]:
                    return False
                xs = [self.proj_field(x, v.variant, i, s) for i in range(len(v.fields))]
                return all(self.term(s, f) == self.term(s, y) for f, y in zip(v.fields, xs))
        except (NeedSplit, NeedAssume, Imprecise):
            pass
        return False

    def ret_ty(self, fn, subst):
        return tsubst(fn.body.locals[0], subst)

    def opaque_call(self, st, name, args, rty, havoc=True):
        """uninterpreted function of the contents of its arguments; mutable referents become functions
        of the call too"""
        ts = [self.term(st, a) for a in args]
        t = mk("call", name, *ts)
        s = st
        for i, a in enumerate(args):
            if isinstance(a, Ref) and a.mut and havoc:
                if s is st:
                    s = st.copy()
                old = self.read(s, a.cell, a.path)
                ty = old.ty if isinstance(old, Sym) else None
                if isinstance(old, Poly):
                    nv = P(mk("ty", mk("mutby", t, i), None, None, sort="int" if is_int_poly(old) else "real"))
                elif isinstance(old, Sym):
                    nv = Sym(mk("mutby", t, i), old.ty)
                elif isinstance(old, Agg) and old.kind == "vec":
                    nv = Sym(mk("mutby", t, i), ("adt", "alloc::vec::Vec", (("other", "?"),)))
                elif isinstance(old, Agg) and old.kind == "adt":
                    nv = Sym(mk("mutby", t, i), ("adt", old.path, ()))
                else:
                    raise Imprecise("mutable argument of opaque call %s" % name)
                self.write(s, a.cell, a.path, nv)
        if rty[0] == "never":
            return []
        return [(s, self.value_of(t, rty))]

    def exec_body(self, fr, st, args, site):
        self.visited.add(fr.fn.key)
        self.calls += 1
        st = st.copy()
        for i, a in enumerate(args):
            st.mem[("L", fr.id, i + 1)] = a
        if len(args) != fr.body.argc:
            raise Imprecise("arity of %s: %d args for %d" % (fr.fn.nice(), len(args), fr.body.argc))
        allb = set(fr.body.cfg()["rpo"])
        if fr.body.cfg()["irreducible"]:
            raise Imprecise("irreducible control flow in %s" % fr.fn.nice())
        rets, exits, backs = self.region(fr, allb, None, {0: [st]})
        out = []
        for s in rets:
            v = s.mem.get(("L", fr.id, 0), UNIT)
            s2 = s.copy()
            for c in list(s2.mem):
                if c[0] == "L" and c[1] == fr.id:
                    # keep cells that escape through returned references
                    del s2.mem[c]
            for r in self.refs_in(v):
                if r.cell[0] == "L" and r.cell[1] == fr.id:
                    s2.mem[r.cell] = s.mem[r.cell]
            out.append((s2, v))
        if len(out) > 1 and self.merge:
            out = self.merge_rets(out)
        return out

    def refs_in(self, v):
        if isinstance(v, Ref):
            return [v]
        if isinstance(v, Agg):
            r = []
            for f in v.fields:
                r += self.refs_in(f)
            return r
        return []

    def merge_rets(self, out):
        groups = {}
        order = []
        for s, v in out:
            k = (v, frozenset(s.mem.items()), s.ev, s.notes)
            if k not in groups:
                groups[k] = []
                order.append(k)
            groups[k].append((s, v))
        res = []
        for k in order:
            g = groups[k]
            stores = merge_stores([s.store for s, _ in g])
            for c in stores:
                s = g[0][0].copy()
                s.store = c
                res.append((s, g[0][1]))
        return res

    def region(self, fr, blocks, header, init, fresh_header=True):
        """execute states over a set of blocks.  Returns (states at return, [(target, state)] leaving the
        region, states arriving at `header` along back edges)"""
        cfg = fr.body.cfg()
        num, loops, live, addr = cfg["num"], cfg["loops"], cfg["live"], cfg["addr"]
        pend = {b: list(ss) for b, ss in init.items()}
        rets, exits, backs = [], [], []
        first = True
        while pend:
            b = min(pend, key=lambda x: num[x])
            states = pend.pop(b)
            if b in loops and not (b == header and first):
                r, e = self.loop(fr, b, states)
                rets += r
                for tgt, s in e:
                    if tgt == header:
                        backs.append(s)
                    elif tgt in blocks:
                        pend.setdefault(tgt, []).append(s)
                    else:
                        exits.append((tgt, s))
                continue
            first = False
            if len(states) > 1 and self.merge:
                states = self.merge_states(fr, states, live[b] | addr)
            if len(states) > self.max_states:
                raise Imprecise("too many partitions (%d) in %s" % (len(states), fr.fn.nice()))
            for s in states:
                for tgt, s2 in self.block(fr, b, s):
                    if tgt is None:
                        rets.append(s2)
                    elif tgt == header:
                        backs.append(s2)
                    elif tgt in blocks:
                        pend.setdefault(tgt, []).append(s2)
                    else:
                        exits.append((tgt, s2))
        return rets, exits, backs

    def merge_states(self, fr, states, keep):
        groups = {}
        order = []
        fid = fr.id
        for s in states:
            s = s.copy()
            for c in list(s.mem):
                if c[0] == "L" and c[1] == fid and c[2] not in keep:
                    del s.mem[c]
            k = (frozenset(s.mem.items()), s.ev, s.notes)
            if k not in groups:
                groups[k] = []
                order.append(k)
            groups[k].append(s)
        out = []
        for k in order:
            g = groups[k]
            if len(g) == 1:
                out.append(g[0])
                continue
            for c in merge_stores([s.store for s in g]):
                s = g[0].copy()
                s.store = c
                out.append(s)
        return out

    def block(self, fr, b, st):
        """-> list of (target|None, state)"""
        self.blocks_done += 1
        if self.blocks_done > self.step_limit:
            raise Imprecise("step limit")
        blk = fr.body.blocks[b]
        work = [(0, st.copy())]
        out = []
        while work:
            i, s = work.pop()
            stmts = blk["s"]
            try:
                while i < len(stmts):
                    self.stmt(fr, s, stmts[i])
                    i += 1
                out += self.terminator(fr, b, s, blk["t"])
            except NeedSplit as ns:
                vs = s.store.bounds(ns.poly).values(1200)
                if vs is None:
                    raise Imprecise("cannot split on %r in %s" % (ns.poly, fr.fn.nice()))
                for v in reversed(vs):
                    st2 = s.store.refine(ns.poly, dconst(v))
                    if st2 is not None:
                        work.append((i, s.with_store(st2)))
            except NeedAssume as na:
                if s.store.truth(na.f) is not None:
                    raise Imprecise("condition %r is not used" % (na.f,))
                for tv in (False, True):
                    for st2 in s.store.assume(na.f, tv):
                        work.append((i, s.with_store(st2)))
        return out

    def stmt(self, fr, s, x):
        if x["k"] == "assign":
            v = self.rvalue(fr, s, x["r"])
            p = x["p"]
            if not p["p"]:
                s.mem[("L", fr.id, p["l"])] = v
            else:
                cell, path = self.place(fr, s, p)
                self.write(s, cell, path, v)
        elif x["k"] == "setdiscr":
            raise Imprecise("set discriminant")

    def where(self, fr, ln=None):
        return fr.fn.nice() + (":%d" % ln if ln else "")

    def terminator(self, fr, b, s, t):
        k = t["k"]
        if k == "goto":
            return [(t["t"], s)]
        if k == "return":
            return [(None, s)]
        if k == "drop":
            return [(t["t"], s)]
        if k in ("unreachable", "resume"):
            return []
        if k == "assert":
            c = self.as_bool(self.operand(fr, s, t["o"]))
            out = []
            for st2 in s.store.assume(c, t["e"]):
                out.append((t["t"], s.with_store(st2)))
            for st2 in s.store.assume(c, not t["e"]):
                self.panics.append(Panic(t["m"], self.where(fr, t.get("ln")), s.with_store(st2)))
            return out
        if k == "switch":
            v = self.operand(fr, s, t["o"])
            vals, ts = t["vals"], t["ts"]
            out = []
            if isinstance(v, T) and v.sort == "bool":
                # vals are "0" (false) possibly "1"
                seen = set()
                for val, tgt in zip(vals, ts):
                    tv = val != "0"
                    seen.add(tv)
                    for st2 in s.store.assume(v, tv):
                        out.append((tgt, s.with_store(st2)))
                for tv in (True, False):
                    if tv not in seen and len(ts) > len(vals):
                        for st2 in s.store.assume(v, tv):
                            out.append((ts[-1], s.with_store(st2)))
                return out
            if not isinstance(v, Poly):
                raise Imprecise("switch on %r" % (v,))
            rest = s.store
            for val, tgt in zip(vals, ts):
                st2 = s.store.refine(v, dconst(int(val)))
                if st2 is not None:
                    out.append((tgt, s.with_store(st2)))
                if rest is not None:
                    rest = rest.refine(v, Dom(((NINF, (int(val) - 1, 0)), ((int(val) + 1, 0), PINF))))
            if len(ts) > len(vals) and rest is not None:
                out.append((ts[-1], s.with_store(rest)))
            return out
        if k == "call":
            res = self.call(fr, s, t)
            out = []
            if t["t"] is None:
                for s2, v in res:
                    self.panics.append(Panic("diverge", self.where(fr, t.get("ln")), s2))
                return out
            for s2, v in res:
                if v is SKIP:
                    # an item a filter drops: the call, which starts an iteration of the loop, is made again
                    if b not in fr.body.cfg()["loops"] or not all(x["k"] == "assign" and x["r"]["k"] == "ref" and not x["p"]["p"] for x in fr.body.blocks[b]["s"]):
                        raise Imprecise("next item of a filtered sequence outside a loop over it")
                    out.append((b, s2))
                    continue
                s2 = s2.copy()
                p = t["d"]
                if not p["p"]:
                    s2.mem[("L", fr.id, p["l"])] = v
                else:
                    cell, path = self.place(fr, s2, p)
                    self.write(s2, cell, path, v)
                out.append((t["t"], s2))
            return out
        if k == "py":
            return t["f"](self, fr, s)
        raise Imprecise("terminator %s" % t.get("s", k))

    # -- calls -------------------------------------------------------------------------------------
    def call(self, fr, s, t):
        f = self.operand(fr, s, t["f"])
        args = [self.operand(fr, s, a) for a in t["args"]]
        rty = tsubst(cty(t["rt"]), fr.subst)
        site = self.where(fr, t.get("ln"))
        return self.apply(s, f, args, rty, fr.depth + 1, site)

    def apply(self, s, f, args, rty, depth, site):
        if isinstance(f, Ref):
            f = self.read(s, f.cell, f.path)
        if isinstance(f, Agg) and f.kind == "closure":
            return self.call_closure(s, f, args, depth, site)
        if isinstance(f, Sym):
            return self.opaque_call(s, f.t, args, rty)
        if not isinstance(f, FnV):
            raise Imprecise("call of %r" % (f,))
        ty = f.ty
        fn, subst = self.resolve(ty)
        if fn is not None:
            return self.call_fn(fn, s, args, subst, depth, site)
        return self.std_call(s, ty, args, rty, depth, site)

    def resolve(self, ty):
        """resolve a callee to a function of the crate (+ substitution) when possible"""
        _, key, name, targs, trait, m = ty
        F = self.F
        if trait is None:
            fn = F.fns.get(key)
            if fn is not None:
                return fn, dict(zip(fn.generics, targs))
            return None, None
        # a trait method
        selfty = targs[0] if targs else None
        if selfty is None:
            return None, None
        base = selfty
        for imp in F.impls_by_trait.get(trait, ()):
            b = {}
            if unify(imp["selfty"], selfty, b):
                ok = True
                for x, y in zip(imp["targsty"][1:], targs[1:]):
                    if not unify(x, y, b):
                        ok = False
                        break
                if not ok:
                    continue
                mk_ = imp["methods"].get(m)
                if mk_ is not None:
                    fn = F.fns.get(mk_)
                    extra = [g for g in fn.generics if g not in b]
                    # method-level generics follow the trait's generics in targs
                    ntr = len(imp["targsty"])
                    for g, a in zip(extra, targs[ntr:]):
                        b[g] = a
                    return fn, b
                # provided method of a local trait
                fn = F.fns.get(key)
                if fn is not None:
                    return fn, dict(zip(fn.generics, targs))
                return None, None
        return None, None

    def call_closure(self, s, c, args, depth, site):
        key, cargs = c.path
        fn = self.F.fns.get(key) or self.F.std.get(key)
        if fn is None:
            raise Imprecise("closure %s" % key)
        subst = dict(zip(fn.generics, cargs))
        # first argument of the closure body: the environment (by value or by reference)
        envty = fn.body.locals[1]
        env = c
        s = s.copy()
        if envty[0] == "ref":
            self.fid += 1
            cell = ("E", self.fid)
            s.mem[cell] = c
            env = Ref(cell, (), envty[2])
        return self.call_fn(fn, s, [env] + list(args), subst, depth, site)

    def std_call(self, s, ty, args, rty, depth, site):
        name = ty[2]
        mdl = self.std.get(name)
        if mdl is not None:
            ctx = Ctx(self, s, args, ty, rty, depth, site)
            r = mdl(ctx)
            if r is not NotImplemented:
                return r
        if rty[0] == "never":
            self.panics.append(Panic("diverge", site, s))
            return []
        if ty[4] is not None and ty[4].startswith(self.F.crate):
            # method of a local trait on an unknown implementor
            k = "%s::%s" % (ty[4], ty[5])
            if k in self.provided:
                # provided methods that no type replaces
                fn = self.F.fns[k]
                return self.call_fn(fn, s, args, dict(zip(fn.generics, ty[3])), depth, site)
            if k in self.overrides and k not in self.F.fns:
                return self.overrides[k](self, s, args, site, {})
            return self.opaque_call(s, "%s::%s" % (ty[4], ty[5]), args, rty)
        fn = self.F.std.get(ty[1])
        if fn is not None:
            return self.call_fn(fn, s, args, dict(zip(fn.generics, ty[3])), depth, site)
        self.unmodelled.add(name)
        return self.opaque_call(s, name, args, rty)

    # -- loops -------------------------------------------------------------------------------------
    def loop(self, fr, header, states):
        """summarise a natural loop: -> (return states, [(target, state)])"""
        cfg = fr.body.cfg()
        body = cfg["loops"][header]
        keep = cfg["live"][header] | cfg["addr"]
        if len(states) > 1 and self.merge:
            states = self.merge_states(fr, states, keep)
        rets, exits = [], []
        unroll = self.unroll if not isinstance(self.unroll, dict) else self.unroll.get(fr.fn.key, 0)
        for s0 in states:
            s0 = s0.copy()
            for c in list(s0.mem):
                if c[0] == "L" and c[1] == fr.id and c[2] not in keep:
                    del s0.mem[c]
            # 1. bounded unrolling when the trip count is a constant of the partition
            r, e, done = self.try_unroll(fr, body, header, s0, unroll)
            if done:
                rets += r
                exits += e
                continue
            r, e = self.summarise(fr, body, header, s0)
            rets += r
            exits += e
        return rets, exits

    def try_unroll(self, fr, body, header, s0, n):
        if n <= 0:
            return [], [], False
        rets, exits = [], []
        cur = [s0]
        np = len(self.panics)
        for i in range(n + 1):
            if not cur:
                return rets, exits, True
            r, e, b = self.region(fr, body, header, {header: cur})
            rets += r
            exits += e
            if len(b) > max(64, 4 * len(cur)):
                break
            cur = self.merge_states(fr, b, fr.body.cfg()["live"][header] | fr.body.cfg()["addr"]) if b else []
        if not cur:
            return rets, exits, True
        del self.panics[np:]
        return [], [], False

    def summarise(self, fr, body, header, s0):
        np = len(self.panics)
        keep = fr.body.cfg()["live"][header] | fr.body.cfg()["addr"]
        self.fid += 1
        lid = "%s@%d" % (fr.fn.name, self.fid)
        # pass 0: one iteration from the entry state
        rets0, exits0, backs0 = self.region(fr, body, header, {header: [s0]})
        if not backs0:
            return rets0, exits0
        # generalise until stable
        phis = Phis()     # (cell, path) -> ('ind', entry, delta) | ('phi', atom, entry, lowmono, highmono) | ('sym', ...)
        kvar = P(mk("var", "k:" + lid, 0, None, sort="int"))
        gen = self.generalise(fr, s0, backs0, phis, kvar, lid, keep)
        for rnd in range(14 if not self.relate else 40):
            del self.panics[np:]
            r1, e1, b1 = self.region(fr, body, header, {header: self.cases_of(gen, phis)})
            changed = self.check_invariant(fr, gen, b1, phis, kvar, lid, keep, s0)
            if not changed:
                if self.on_loop is not None:
                    self.on_loop(self, fr, header, s0, gen, b1, phis)
                break
            gen = self.regen(s0, phis, kvar, keep, fr)
        else:
            raise Imprecise("loop in %s did not stabilise" % fr.fn.nice())
        if self.closed_forms:
            del self.panics[np:]
            c = closed.closed(self, fr, body, header, s0, gen, b1, phis, kvar, keep)
            if c is not None:
                self.closed_count += 1
                return c
            del self.panics[np:]
            c = closed.bisect(self, fr, body, header, s0, gen, phis)
            if c is not None:
                self.closed_count += 1
                return c
            del self.panics[np:]
            if self.peel:
                # the first iteration by itself, closed forms for the others
                r, e = self.peeled(fr, body, header, s0)
                if r is not None:
                    return r, e
                del self.panics[np:]
        # states after k+1 iterations = back states of gen, re-expressed; run the header once more to get
        # exits that remember the last guard; keep it simple and sound: exits of entry pass + exits of gen
        del self.panics[np:]
        keepst = []
        rets, exits = list(rets0), list(exits0)
        if self.guard_history:
            # exits reached after at least one full iteration
            ren = P(mk("var", "kk:" + lid, 0, None, sort="int"))
            r2, e2, b2 = self.region(fr, body, header, {header: [x.copy() for x in b1]})
            self.region(fr, body, header, {header: [s0]})
            rets += r2
            exits += e2
        else:
            r2, e2, b2 = self.region(fr, body, header, {header: self.cases_of(gen, phis)})
            self.region(fr, body, header, {header: [s0]})
            rets, exits = r2, e2
        return rets, exits

    def peeled(self, fr, body, header, s0):
        cfg = fr.body.cfg()
        self.peel -= 1
        try:
            rets, exits, backs = self.region(fr, body, header, {header: [s0]})
            rets, exits = list(rets), list(exits)
            if len(backs) > 1 and self.merge:
                backs = self.merge_states(fr, backs, cfg["live"][header] | cfg["addr"])
            for b in backs:
                n = self.closed_count
                r, e = self.summarise(fr, body, header, b)
                if self.closed_count == n:
                    return None, None
                rets += r
                exits += e
            return rets, exits
        finally:
            self.peel += 1

    peel = 0
    closed_count = 0
    guard_history = True
    closed_forms = True

    def live_cells(self, st, fr, keep):
        return [c for c in st.mem if not (c[0] == "L" and c[1] == fr.id and c[2] not in keep)]

    def generalise(self, fr, s0, backs, phis, kvar, lid, keep):
        for b in backs:
            for c in self.live_cells(b, fr, keep):
                if c not in s0.mem:
                    if c[0] in ("S", "K", "E", "B"):
                        continue
                    continue
                self.diff(s0, b, s0.mem[c], b.mem[c], c, (), phis, lid, kvar)
        if self.relate:
            self.related(fr, s0, phis, keep)
        return self.regen(s0, phis, kvar, keep, fr)

    # functions f for which loops may keep relations y = f(x) between places, and signs of f(x)
    relate = ()
    on_loop = None

    def applied(self, f, x):
        return self.value_of(mk("call", f, x), ("float", 64))

    def numbers(self, st, fr, keep):
        """places that hold a real number"""
        out = []

        def walk(cell, path, v):
            if isinstance(v, Poly):
                if not is_int_poly(v):
                    out.append((cell, path, v))
            elif isinstance(v, Agg) and v.kind in ("adt", "tuple") and not (v.kind == "adt" and self.is_enum(v.path)):
                for i, x in enumerate(v.fields):
                    walk(cell, path + (("f", i),), x)
        for c in self.live_cells(st, fr, keep):
            if c[0] not in ("K", "S"):
                walk(c, (), st.mem[c])
        return out

    def related(self, fr, s0, phis, keep):
        """candidate relations that hold at the entry of the loop (kept as long as iterations preserve them)"""
        places = self.numbers(s0, fr, keep)
        rel, signs = list(phis.relations), list(phis.signs)
        for key, x in phis.items():
            if x[0] == "phi" and key not in phis.seen:
                phis.seen.add(key)
                for f in self.relate:
                    for c, p, v in places:
                        if (c, p) != key and s0.store.equal(x[2], self.applied(f, v)):
                            rel.append((key, f, (c, p)))
                    d = s0.store.bounds(self.applied(f, x[2]))
                    for lo, hi in ((None, 0), (0, None)):
                        for strict in (True, False):
                            if not strict or d.inter(drange(0, 0)).empty():
                                if not d.empty() and (hi is None or d.hi()[0] <= 0) and (lo is None or d.lo()[0] >= 0):
                                    signs.append((key, f, lo, hi, strict))
        phis.relations, phis.signs = rel, signs
        if self.mixed_signs and not phis.tried:
            for f in self.relate:
                ps = sorted({r[2] for r in rel if r[1] is f}, key=repr)
                if 2 <= len(ps) <= 3:
                    phis.tried = True
                    if self.mixed(s0, f, ps):
                        phis.mixed = phis.mixed + [(f, ps)]

    mixed_signs = False

    def mixed(self, st, f, places):
        """f is not of the same strict sign at all of these places"""
        ds = [self.sign_of(st, self.applied(f, self.read_path(st, st.mem[c], p))) for c, p in places]
        return any(d.empty() for d in ds) or any(d.hi()[0] <= 0 for d in ds) and any(d.lo()[0] >= 0 for d in ds)

    def sign_of(self, st, y):
        """bounds of y, by what is known about its products with numbers of known sign"""
        d = st.store.bounds(y)
        a = y.atom()
        if a is None or d.empty() or d.hi()[0] <= 0 or d.lo()[0] >= 0:
            return d
        for k, dom in st.store.c.items():
            if isinstance(k, Poly) and len(k.d) == 1 and not dom.empty():
                (m, c), = k.d.items()
                if len(m) == 2 and (a, 1) in m:
                    z = m[0][0] if m[1] == (a, 1) else m[1][0]
                    dz = st.store.bounds(Poly({((z, 1),): 1}))
                    if dz.empty() or dict(m)[z] != 1 or not dz.inter(drange(0, 0)).empty():
                        continue
                    up = (dz.lo()[0] >= 0) == (c > 0)
                    if dom.hi()[0] <= 0:
                        d = d.inter(drange(None, 0) if up else drange(0, None))
                    if dom.lo()[0] >= 0:
                        d = d.inter(drange(0, None) if up else drange(None, 0))
        return d

    def cases_of(self, g, phis):
        """the generic iteration, one state for each choice of places with opposite signs"""
        out = [g]
        for f, ps in phis.mixed:
            nxt = []
            for h in out:
                ys = [self.applied(f, self.read_path(h, h.mem[c], p)) for c, p in ps]
                for a in ys:
                    for b in ys:
                        if a is not b:
                            st = h.store.refine(a, drange(None, 0))
                            st = st and st.refine(b, drange(0, None))
                            if st is not None:
                                x = h.copy()
                                x.store = st
                                nxt.append(x)
            out = nxt
        return out

    def with_relations(self, g, phis):
        st = g.store
        done = set()
        for key, f, (c, p) in phis.relations:
            y = self.applied(f, self.read_path(g, g.mem[c], p))
            if key not in done:
                done.add(key)
                g.mem[key[0]] = self.write_path(g, g.mem[key[0]], key[1], y)
            else:
                st = st.refine(self.read_path(g, g.mem[key[0]], key[1]) - y, drange(0, 0)) or st
        for key, f, lo, hi, strict in phis.signs:
            y = self.applied(f, self.read_path(g, g.mem[key[0]], key[1]))
            st = st.refine(y, drange(lo, hi)) or st
            if strict:
                xs = st.assume(cmp("!=", y, False), True)
                st = xs[0] if len(xs) == 1 else st
        g.store = st

    def keeps_relations(self, b, phis):
        at = lambda k: self.read_path(b, b.mem[k[0]], k[1])

        def sign_kept(key, f, lo, hi, strict):
            d = b.store.bounds(self.applied(f, at(key)))
            return d.empty() or (hi is None or d.hi()[0] <= 0) and (lo is None or d.lo()[0] >= 0) and (not strict or d.inter(drange(0, 0)).empty())
        rel = [r for r in phis.relations if isinstance(at(r[0]), Poly) and isinstance(at(r[2]), Poly) and b.store.equal(at(r[0]), self.applied(r[1], at(r[2])))]
        signs = [r for r in phis.signs if isinstance(at(r[0]), Poly) and sign_kept(*r)]
        mixed = [r for r in phis.mixed if self.mixed(b, *r)]
        changed = len(rel) != len(phis.relations) or len(signs) != len(phis.signs) or len(mixed) != len(phis.mixed)
        phis.mixed = mixed
        phis.relations, phis.signs = rel, signs
        return changed

    def diff(self, s0, b, v0, v1, cell, path, phis, lid, kvar):
        """find locations that change; classify"""
        if v0 == v1:
            return
        key = (cell, path)
        for (c, p) in phis:
            if c == cell and path[: len(p)] == p:
                return
        if isinstance(v0, Poly) and isinstance(v1, Poly):
            d = v1 - v0
            if d.is_const():
                phis[key] = ["ind", v0, d]
            else:
                phis[key] = self.newphi(v0, lid, cell, path)
            return
        if wrapped(v0) and wrapped(v1) and v0.t.op == v1.t.op and v0.t.args[1:] == v1.t.args[1:]:
            return self.diff(s0, b, v0.t.args[0], v1.t.args[0], cell, path + (("w", v0.t.op),), phis, lid, kvar)
        if isinstance(v0, Agg) and isinstance(v1, Agg) and v0.kind == v1.kind and v0.path == v1.path and v0.variant == v1.variant and len(v0.fields) == len(v1.fields) and v0.kind != "vec":
            for i, (x, y) in enumerate(zip(v0.fields, v1.fields)):
                pe = (("v", v0.variant), ("f", i)) if v0.kind == "adt" and self.is_enum(v0.path) else (("f", i),)
                if v0.kind == "array":
                    pe = (("i", const(i)),)
                self.diff(s0, b, x, y, cell, path + pe, phis, lid, kvar)
            return
        if isinstance(v0, Sym) and isinstance(v1, Agg) and v1.kind == "adt" and not self.is_enum(v1.path):
            return self.diff(s0, b, self.expand(v0), v1, cell, path, phis, lid, kvar)
        if isinstance(v1, Sym) and isinstance(v0, Agg) and v0.kind == "adt" and not self.is_enum(v0.path):
            return self.diff(s0, b, v0, self.expand(v1), cell, path, phis, lid, kvar)
        if isinstance(v0, Sym) and isinstance(v1, Sym) and v0.ty[0] == "adt":
            a = self.F.adts.get(v0.ty[1])
            if a is not None and not a["enum"] and a["key"].startswith(self.F.crate) and v0.t.op != "phi":
                return self.diff(s0, b, self.expand(v0), self.expand(v1), cell, path, phis, lid, kvar)
        phis[key] = self.newphi(v0, lid, cell, path)

    def is_enum(self, path):
        a = self.F.adts.get(path)
        return a["enum"] if a else True

    def newphi(self, v0, lid, cell, path):
        nm = mk("phi", lid, repr((cell[0], cell[2:] if cell[0] == "L" else cell[1:], path)))
        if isinstance(v0, Poly):
            integer = is_int_poly(v0)
            ty = self.loc_type(cell, path)
            if ty is not None and ty[0] in ("int", "uint", "float"):
                integer = ty[0] != "float"
            a = mk("ty", nm, None, None, sort="int" if integer else "real")
            return ["phi", P(a), v0, True, True, None]
        if isinstance(v0, T) and v0.sort == "bool":
            return ["bool", cmp("==", P(mk("ty", nm, 0, 1, sort="int")) - 1, True), v0]
        ty = self.type_of_value(v0)
        return ["sym", Sym(nm, ty), v0]

    def type_of_value(self, v):
        if isinstance(v, Sym):
            return v.ty
        if isinstance(v, Agg):
            if v.kind == "adt":
                args = ()
                if v.path == OPTION and v.variant == 1:
                    args = (self.type_of_value(v.fields[0]),)
                return ("adt", v.path, args)
            if v.kind == "vec":
                et = self.type_of_value(v.fields[0]) if v.fields else ("other", "?")
                return ("adt", "alloc::vec::Vec", (et,))
            if v.kind == "tuple":
                return ("tuple", tuple(self.type_of_value(x) for x in v.fields))
        if isinstance(v, Poly):
            return ("int", 64) if is_int_poly(v) else ("float", 64)
        if isinstance(v, T):
            return ("bool",)
        if isinstance(v, Ref):
            return ("ref", ("other", "?"), v.mut)
        return ("other", "?")

    def cell_type(self, fr, cell, path):
        if cell[0] == "L" and cell[1] == fr.id:
            ty = tsubst(fr.body.locals[cell[2]], fr.subst)
            variant = None
            for e in path:
                if e[0] == "v":
                    variant = e[1]
                elif e[0] == "f":
                    ty = self.field_ty(ty, variant, e[1])
                    variant = None
                elif e[0] == "i":
                    ty = self.elem_ty(ty)
            return ty
        return None

    def loc_type(self, cell, path):
        """type of a location, when known"""
        if cell[0] == "L" and cell[1] in self.frames:
            body, subst = self.frames[cell[1]]
            ty = tsubst(body.locals[cell[2]], subst) if cell[2] < len(body.locals) else None
        elif cell[0] == "S":
            ty = cell[2]
        else:
            ty = None
        variant = None
        try:
            for e in path:
                if ty is None or e[0] == "w":
                    return None
                if e[0] == "v":
                    variant = e[1]
                elif e[0] == "f":
                    ty = self.field_ty(ty, variant, e[1])
                    variant = None
                elif e[0] == "i":
                    ty = self.elem_ty(ty)
        except (Imprecise, LookupError, TypeError, AttributeError):
            return None
        return ty

    def regen(self, s0, phis, kvar, keep, fr):
        g = s0.copy()
        st = g.store
        ints = [x for x in phis.values() if x[0] == "ind"]
        for (cell, path), x in sorted(phis.items(), key=lambda kv: (repr(kv[0][0]), len(kv[0][1]))):
            if x[0] == "ind":
                v = x[1] + x[2] * kvar
            else:
                v = x[1]
                if x[0] == "sym":
                    ty = self.cell_type(fr, cell, path)
                    if ty is not None and ty[0] not in ("other",) and isinstance(v, Sym):
                        v = self.value_of(v.t, ty)
                        if isinstance(v, Agg):
                            v = Sym(x[1].t, ty)
            g.mem[cell] = self.write_path(g, g.mem[cell], path, v)
            st = wrap_fact(st, path, v)
        for x in phis.values():
            if x[0] == "phi":
                if x[3]:
                    st = st.refine(x[1] - x[2], drange(0, None)) or st
                if x[4] and not x[3]:
                    st = st.refine(x[1] - x[2], drange(None, 0)) or st
                if x[5] is not None:
                    st = st.refine(x[1], x[5]) or st
        g.store = st
        if self.relate:
            self.with_relations(g, phis)
        return g

    def check_invariant(self, fr, gen, backs, phis, kvar, lid, keep, s0):
        changed = False
        for b in backs:
            for c in self.live_cells(b, fr, keep):
                if c not in gen.mem:
                    continue
                v0, v1 = gen.mem[c], b.mem[c]
                if self.check_val(gen, b, v0, v1, c, (), phis, kvar, lid, s0):
                    changed = True
        for b in backs:
            if self.relate and self.keeps_relations(b, phis):
                changed = True
        if self.relate and changed:
            self.related(fr, s0, phis, keep)
        return changed

    def check_val(self, gen, b, v0, v1, cell, path, phis, kvar, lid, s0):
        key = (cell, path)
        if key in phis:
            x = phis[key]
            if x[0] == "ind":
                if isinstance(v1, Poly) and b.store.equal(v1, v0 + x[2]):
                    return False
                phis[key] = self.newphi(x[1], lid, cell, path)
                return True
            if x[0] == "phi":
                ch = False
                if not isinstance(v1, Poly):
                    raise Imprecise("loop value")
                d = b.store.bounds(v1 - x[2])
                if x[3] and (d.empty() or d.lo()[0] < 0):
                    x[3] = False
                    ch = True
                if x[4] and not x[3] and (d.empty() or d.hi()[0] > 0):
                    x[4] = False
                    ch = True
                if x[5] is not None:
                    bd = b.store.bounds(v1)
                    if bd.inter(x[5]) != bd:
                        x[5] = None
                        ch = True
                return ch
            return False
        if v0 == v1:
            return False
        if wrapped(v0) and wrapped(v1) and v0.t.op == v1.t.op and v0.t.args[1:] == v1.t.args[1:]:
            return self.check_val(gen, b, v0.t.args[0], v1.t.args[0], cell, path + (("w", v0.t.op),), phis, kvar, lid, s0)
        # descend along existing phis
        if isinstance(v0, Agg) and isinstance(v1, Agg) and v0.kind == v1.kind and v0.path == v1.path and v0.variant == v1.variant and len(v0.fields) == len(v1.fields) and v0.kind != "vec":
            ch = False
            for i, (x, y) in enumerate(zip(v0.fields, v1.fields)):
                pe = (("v", v0.variant), ("f", i)) if v0.kind == "adt" and self.is_enum(v0.path) else (("f", i),)
                if v0.kind == "array":
                    pe = (("i", const(i)),)
                if self.check_val(gen, b, x, y, cell, path + pe, phis, kvar, lid, s0):
                    ch = True
            return ch
        under = [k for k in phis if k[0] == cell and k[1][: len(path)] == path]
        if under and isinstance(v0, Agg) and isinstance(v1, Sym) and not self.is_enum(v0.path):
            return self.check_val(gen, b, v0, self.expand(v1), cell, path, phis, kvar, lid, s0)
        base = self.read_path(s0, s0.mem[cell], path)
        if isinstance(v0, Poly) and isinstance(v1, Poly):
            if b.store.equal(v0, v1):
                return False
            d = v1 - v0
            if d.is_const() and not under:
                phis[key] = ["ind", base, d]
                return True
        if isinstance(v0, T) and isinstance(v1, T) and v0.sort == "bool" and b.store.truth(bor(band(v0, v1), band(bnot(v0), bnot(v1)))) is True:
            return False
        for k in under:
            del phis[k]
        phis[key] = self.newphi(base, lid, cell, path)
        return True


class Frame:
    def __init__(self, eng, fn, body, subst):
        eng.fid += 1
        self.id = eng.fid
        self.fn = fn
        self.body = body
        self.subst = subst
        self.depth = 0
        eng.frames[self.id] = (body, subst)

    _cache = {}

    def cty(self, o):
        t = o["t"]
        r = o.get("_ct")
        if r is None:
            r = cty(t)
            o["_ct"] = r
        return r

    def cty2(self, o, k):
        r = o.get("_c" + k)
        if r is None:
            r = cty(o[k])
            o["_c" + k] = r
        return r


class Ctx:
    __slots__ = ("E", "s", "args", "ty", "rty", "depth", "site")

    def __init__(self, E, s, args, ty, rty, depth, site):
        self.E, self.s, self.args, self.ty, self.rty, self.depth, self.site = E, s, args, ty, rty, depth, site

    def val(self, i):
        """argument with references followed"""
        v = self.args[i]
        while isinstance(v, Ref):
            v = self.E.read(self.s, v.cell, v.path)
        return v

    def ret(self, v, s=None):
        return [(s or self.s, v)]

    def panic(self, kind, s):
        self.E.panics.append(Panic(kind, self.site, s))


def merge_stores(stores):
    """exact union of stores where they differ in at most one key; drops subsumed ones"""
    out = []
    for s in stores:
        out.append(s)
    ch = True
    while ch and len(out) > 1:
        ch = False
        for i in range(len(out)):
            for j in range(i + 1, len(out)):
                m = merge2(out[i], out[j])
                if m is not None:
                    out[i] = m
                    del out[j]
                    ch = True
                    break
            if ch:
                break
        if len(out) > 200:
            break
    return out


def merge2(a, b):
    ka, kb = a.c, b.c
    if a.fd is not None:
        if ka == kb:
            return Store(ka, a.fd, a.mask | b.mask)
        if a.mask != b.mask:
            return None
    if ka == kb:
        return a
    diff = []
    for k in set(ka) | set(kb):
        x, y = ka.get(k), kb.get(k)
        if x != y:
            diff.append((k, x, y))
            if len(diff) > 1:
                break
    # subsumption: a weaker than b
    if all(k in kb and kb[k].inter(ka[k]) == kb[k] for k in ka):
        return a
    if all(k in ka and ka[k].inter(kb[k]) == ka[k] for k in kb):
        return b
    if len(diff) == 1:
        k, x, y = diff[0]
        if x is None or y is None:
            c = dict(ka)
            c.pop(k, None)
            return Store(c, a.fd, a.mask)
        u = x.union(y, is_int_poly(k))
        c = dict(ka)
        if u == TOP:
            c.pop(k, None)
        else:
            c[k] = u
        return Store(c, a.fd, a.mask)
    return None


import closed  # noqa: E402
