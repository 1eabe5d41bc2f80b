"""Abstract semantics of the standard-library functions the crate calls."""
from terms import *
from engine import *
import closed
import loops

STD = {}


def std(*names):
    def d(f):
        for n in names:
            STD[n] = f
        return f
    return d


# ---- comparison ----------------------------------------------------------------------------------

def deref(c, v):
    while isinstance(v, Ref):
        v = c.E.read(c.s, v.cell, v.path)
    return v


def find_impl(c, trait_suffix, method, v, rhs=None):
    ty = c.E.type_of_value(v) if not isinstance(v, Sym) else v.ty
    if ty[0] != "adt":
        return None
    for imp in c.E.F.impls:
        if imp["trait"] and imp["trait"].split("::")[-1] == trait_suffix and imp["selfty"][0] == "adt" and imp["selfty"][1] == ty[1]:
            k = imp["methods"].get(method)
            if k is not None:
                fn = c.E.F.fns[k]
                b = {}
                unify(imp["selfty"], ty, b)
                return fn, b
    return None


def equal_values(c, s, a, b, depth=0):
    """-> list of (state, formula)"""
    E = c.E
    while isinstance(a, Ref):
        a = E.read(s, a.cell, a.path)
    while isinstance(b, Ref):
        b = E.read(s, b.cell, b.path)
    if isinstance(a, Poly) and isinstance(b, Poly):
        return [(s, cmp("==", a - b))]
    if isinstance(a, T) and isinstance(b, T) and a.sort == "bool" and b.sort == "bool":
        return [(s, bor(band(a, b), band(bnot(a), bnot(b))))]
    if isinstance(a, Str) and isinstance(b, Str):
        return [(s, TRUE if a.s == b.s else FALSE)]
    f = string_eq(c, s, a, b)
    if f is not None:
        return [(s, f)]
    # user-defined / derived equality
    probe = a if isinstance(a, Agg) or (isinstance(a, Sym) and a.ty[0] == "adt") else b
    r = find_impl(c, "PartialEq", "eq", probe)
    if r is not None and depth < 6:
        fn, b_ = r
        s = s.copy()
        E.fid += 1
        ca, cb = ("B", E.fid, 0), ("B", E.fid, 1)
        s.mem[ca], s.mem[cb] = a, b
        out = []
        for s2, v in E.call_fn(fn, s, [Ref(ca), Ref(cb)], b_, c.depth, c.site):
            s2 = s2.copy()
            s2.mem.pop(ca, None)
            s2.mem.pop(cb, None)
            out.append((s2, v))
        return out
    if isinstance(a, Agg) and isinstance(b, Agg) and a.kind == b.kind:
        if a.kind == "adt" and a.variant != b.variant:
            return [(s, FALSE)]
        if len(a.fields) != len(b.fields):
            return [(s, FALSE)]
        cur = [(s, TRUE)]
        for x, y in zip(a.fields, b.fields):
            cur = [(s3, band(f, g)) for s2, f in cur for s3, g in equal_values(c, s2, x, y, depth + 1)]
        return cur
    # Option<T> against a known variant
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Agg) and isinstance(y, Sym) and x.path == OPTION:
            dd = E.discr_of(y)
            same = cmp("==", dd - x.variant, True)
            if x.variant == 0:
                return [(s, same)]
            inner = E.proj_field(y, 1, 0)
            return [(s2, band(same, f)) for s2, f in equal_values(c, s, x.fields[0], inner, depth + 1)]
    ta, tb = E.term(s, a), E.term(s, b)
    if ta == tb:
        return [(s, TRUE)]
    x, y = sorted((ta, tb), key=repr)
    return [(s, batom("eq", x, y))]


@std("std::cmp::PartialEq::eq")
def m_eq(c):
    return equal_values(c, c.s, c.args[0], c.args[1])


@std("std::cmp::PartialEq::ne")
def m_ne(c):
    a = deref(c, c.args[0])
    return [(s, bnot(f)) for s, f in equal_values(c, c.s, c.args[0], c.args[1])]


def ordering(st, d, integer):
    """Ordering value of sign(d): forks"""
    lt = cmp("<", d, integer)
    t = st.store.truth(lt)
    if t is None:
        raise NeedAssume(lt)
    if t:
        return Agg("adt", ORDERING, 0, ())
    eq = cmp("==", d, integer)
    t = st.store.truth(eq)
    if t is None:
        raise NeedAssume(eq)
    return Agg("adt", ORDERING, 1 if t else 2, ())


def compare(c, s, a, b):
    """-> list of (state, Ordering value)"""
    E = c.E
    while isinstance(a, Ref):
        a = E.read(s, a.cell, a.path)
    while isinstance(b, Ref):
        b = E.read(s, b.cell, b.path)
    if isinstance(a, Poly) and isinstance(b, Poly):
        return [(s, ordering(s, a - b, is_int_poly(a) and is_int_poly(b)))]
    if isinstance(a, T) and isinstance(b, T) and a.sort == "bool" and b.sort == "bool":
        out = []
        for ta in (False, True):
            for s2 in s.store.assume(a, ta):
                for tb in (False, True):
                    for s3 in s2.assume(b, tb):
                        out.append((s.with_store(s3), Agg("adt", ORDERING, 1 + int(ta) - int(tb), ())))
        return out
    if isinstance(a, Agg) and isinstance(b, Agg) and a.kind == "tuple" == b.kind:
        cur = [(s, 1)]
        done = []
        for x, y in zip(a.fields, b.fields):
            nxt = []
            for s2, _ in cur:
                for s3, o in compare(c, s2, x, y):
                    if isinstance(o, Agg) and o.path == OPTION:
                        o = o.fields[0]
                    if o.variant == 1:
                        nxt.append((s3, 1))
                    else:
                        done.append((s3, o))
            cur = nxt
        return done + [(s2, Agg("adt", ORDERING, 1, ())) for s2, _ in cur]
    probe = a if isinstance(a, Agg) or (isinstance(a, Sym) and a.ty[0] == "adt") else b
    for tr, m in (("Ord", "cmp"), ("PartialOrd", "partial_cmp")):
        r = find_impl(c, tr, m, probe)
        if r is not None:
            fn, b_ = r
            s = s.copy()
            E.fid += 1
            ca, cb = ("B", E.fid, 0), ("B", E.fid, 1)
            s.mem[ca], s.mem[cb] = a, b
            out = []
            for s2, v in E.call_fn(fn, s, [Ref(ca), Ref(cb)], b_, c.depth, c.site):
                s2 = s2.copy()
                s2.mem.pop(ca, None)
                s2.mem.pop(cb, None)
                if tr == "PartialOrd":
                    out.append((s2, v))
                else:
                    out.append((s2, v))
            return out
    raise Imprecise("comparison of %r with %r" % (a, b))


def rel_model(rel):
    def f(c):
        E = c.E
        a, b = deref(c, c.args[0]), deref(c, c.args[1])
        if isinstance(a, Poly) and isinstance(b, Poly):
            return c.ret(cmp(rel, a - b))
        # the trait's own provided lt/le/gt/ge go through partial_cmp
        probe = a if isinstance(a, Agg) or (isinstance(a, Sym) and a.ty[0] == "adt") else b
        r = find_impl(c, "PartialOrd", "partial_cmp", probe)
        s = c.s.copy()
        E.fid += 1
        ca, cb = ("B", E.fid, 0), ("B", E.fid, 1)
        s.mem[ca], s.mem[cb] = a, b
        if r is None:
            raise Imprecise("ordering of %r" % (a,))
        ov = find_impl(c, "PartialOrd", {"<": "lt", "<=": "le", ">": "gt", ">=": "ge"}[rel], probe)
        if ov is not None:
            return E.call_fn(ov[0], s, [Ref(ca), Ref(cb)], ov[1], c.depth, c.site)
        fn, b_ = r
        out = []
        for s2, v in E.call_fn(fn, s, [Ref(ca), Ref(cb)], b_, c.depth, c.site):
            s2 = s2.copy()
            s2.mem.pop(ca, None)
            s2.mem.pop(cb, None)
            for s3, o in split_option(c, s2, v):
                if o is None:
                    out.append((s3, FALSE))
                    continue
                if isinstance(o, Agg):
                    d = o.variant - 1
                    ok = {"<": d < 0, "<=": d <= 0, ">": d > 0, ">=": d >= 0}[rel]
                    out.append((s3, TRUE if ok else FALSE))
                else:
                    out.append((s3, cmp(rel, E.discr_of(o), True)))
        return out
    return f


for _n, _r in (("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">=")):
    STD["std::cmp::PartialOrd::" + _n] = rel_model(_r)


@std("std::cmp::PartialOrd::partial_cmp")
def m_partial_cmp(c):
    out = []
    for s, o in compare(c, c.s, c.args[0], c.args[1]):
        out.append((s, o if isinstance(o, Agg) and o.path == OPTION else some(o)))
    return out


@std("std::cmp::Ord::cmp")
def m_cmp(c):
    return [(s, o.fields[0] if isinstance(o, Agg) and o.path == OPTION else o) for s, o in compare(c, c.s, c.args[0], c.args[1])]


def minmax(which):
    def f(c):
        a, b = c.args[0], c.args[1]
        if isinstance(a, Poly) and isinstance(b, Poly):
            s = c.s
            le = cmp("<=", a - b)
            t = s.store.truth(le)
            if t is None:
                raise NeedAssume(le)
            if which == "max":
                return c.ret(b if t else a)
            return c.ret(a if t else b)
        out = []
        for s, o in compare(c, c.s, a, b):
            if isinstance(o, Agg) and o.path == OPTION:
                o = o.fields[0]
            if isinstance(o, Sym):
                raise Imprecise("min/max")
            if which == "max":
                out.append((s, a if o.variant == 2 else b))
            else:
                out.append((s, b if o.variant == 2 else a))
        return out
    return f


STD["std::cmp::Ord::max"] = minmax("max")
STD["std::cmp::Ord::min"] = minmax("min")
STD["core::f64::<impl f64>::max"] = minmax("max")
STD["core::f64::<impl f64>::min"] = minmax("min")
STD["std::cmp::max"] = minmax("max")
STD["std::cmp::min"] = minmax("min")


# ---- clone / conversion --------------------------------------------------------------------------

@std("std::clone::Clone::clone")
def m_clone(c):
    # derived or std clone of a value: same value
    return c.ret(c.val(0) if not isinstance(c.args[0], Ref) else c.E.read(c.s, c.args[0].cell, c.args[0].path))


@std("std::borrow::ToOwned::to_owned", "std::string::ToString::to_string", "std::slice::<impl [T]>::to_vec", "std::str::<impl str>::to_owned")
def m_to_owned(c):
    v = c.val(0)
    if isinstance(v, Str):
        return c.ret(v)
    if c.ty[2].endswith("to_string"):
        if isinstance(v, Sym) and v.ty[0] in ("ref", "str"):
            return c.ret(v)
        return c.ret(Sym(mk("to_string", c.E.term(c.s, v)), ("adt", "alloc::string::String", ())))
    if isinstance(v, Agg) and v.kind == "array":
        return c.ret(Agg("vec", None, 0, v.fields))
    return c.ret(v)


@std("std::convert::From::from", "std::convert::Into::into")
def m_into(c):
    E = c.E
    v = c.args[0]
    targs = c.ty[3]
    if c.ty[2].endswith("Into::into"):
        src, dst = targs[0], targs[1]
    else:
        dst, src = targs[0], targs[1]
    # user impls
    for imp in E.F.impls_by_trait.get("core::convert::From", ()):
        b = {}
        if unify(imp["selfty"], dst, b) and unify(imp["targsty"][1], src, b):
            fn = E.F.fns[imp["methods"]["from"]]
            return E.call_fn(fn, c.s, [v], b, c.depth, c.site)
    for imp in E.F.impls_by_trait.get("core::convert::Into", ()):
        b = {}
        if unify(imp["selfty"], src, b) and unify(imp["targsty"][1], dst, b):
            fn = E.F.fns[imp["methods"]["into"]]
            return E.call_fn(fn, c.s, [v], b, c.depth, c.site)
    if src == dst:
        return c.ret(v)
    if isinstance(v, Poly):
        return c.ret(v)       # lossless numeric widening
    if isinstance(v, T) and v.sort == "bool" and dst[0] in ("int", "uint"):
        return c.ret(E.cast(c.s, "IntToInt", v, src, dst))
    if dst[0] == "adt" and dst[1].endswith("String"):
        return c.ret(v if not isinstance(v, Ref) else c.val(0))
    return NotImplemented


@std("std::convert::TryInto::try_into", "std::convert::TryFrom::try_from")
def m_try_into(c):
    E = c.E
    v = c.args[0]
    targs = c.ty[3]
    if c.ty[2].endswith("try_into"):
        src, dst = targs[0], targs[1]
    else:
        dst, src = targs[0], targs[1]
    for imp in E.F.impls_by_trait.get("core::convert::TryFrom", ()):
        b = {}
        if unify(imp["selfty"], dst, b) and unify(imp["targsty"][1], src, b):
            fn = E.F.fns[imp["methods"]["try_from"]]
            return E.call_fn(fn, c.s, [v], b, c.depth, c.site)
    if isinstance(v, Poly) and dst in INT_RANGE:
        lo, hi = INT_RANGE[dst]
        out = []
        s = c.s.store.refine(v, drange(lo, hi))
        if s is not None:
            out.append((c.s.with_store(s), Agg("adt", RESULT, 0, (v,))))
        for s in c.s.store.assume(bor(cmp("<", v - lo, True), cmp(">", v - hi, True)), True):
            out.append((c.s.with_store(s), Agg("adt", RESULT, 1, (UNIT,))))
        return out
    return NotImplemented


@std("std::default::Default::default")
def m_default(c):
    ty = c.rty
    if ty[0] in ("int", "uint"):
        return c.ret(ZERO)
    if ty[0] == "float":
        return c.ret(ZERO)
    if ty[0] == "bool":
        return c.ret(FALSE)
    if ty[0] == "adt":
        if ty[1] == OPTION:
            return c.ret(NONE)
        n = ty[1].split("::")[-1]
        if n == "Vec":
            return c.ret(Agg("vec", None, 0, ()))
        if n == "String":
            return c.ret(Str(""))
        if n == "HashSet":
            return c.ret(Sym(mk("emptyset"), ty))
    return NotImplemented


@std("std::ops::Deref::deref", "std::ops::DerefMut::deref_mut", "std::convert::AsRef::as_ref", "std::borrow::Borrow::borrow", "std::vec::Vec::<T, A>::as_slice", "std::string::String::as_str")
def m_deref(c):
    a = c.args[0]
    v = c.E.read(c.s, a.cell, a.path) if isinstance(a, Ref) else a
    if isinstance(v, Ref):
        return c.ret(v)
    if isinstance(v, Str):
        return c.ret(v)
    if isinstance(v, Agg) and v.kind == "box":
        return c.ret(v.fields[0])
    if isinstance(v, Sym) and v.ty[0] == "adt":
        n = v.ty[1].split("::")[-1]
        if n in ("Rc", "Arc", "Box"):
            return c.ret(Ref(("S", v.t, v.ty[2][0])))
    return c.ret(a)


@std("std::rc::Rc::<T>::new", "std::sync::Arc::<T>::new", "std::boxed::Box::<T>::new")
def m_rc_new(c):
    c.E.fid += 1
    cell = ("B", c.E.fid)
    s = c.s.copy()
    s.mem[cell] = c.args[0]
    return [(s, Agg("box", None, 0, (Ref(cell, (), True),)))]


# ---- operators on references / primitives -----------------------------------------------------------

def arith(op):
    def f(c):
        a, b = deref(c, c.args[0]), deref(c, c.args[1])
        if isinstance(a, Poly) and isinstance(b, Poly):
            t = c.ty[3][0]
            while t[0] == "ref":
                t = t[1]
            r = c.E.binop(c.s, op, a, b, t)
            return c.ret(r)
        return NotImplemented
    return f


for _n, _o in (("Add::add", "Add"), ("Sub::sub", "Sub"), ("Mul::mul", "Mul"), ("Div::div", "Div"), ("Rem::rem", "Rem")):
    STD["std::ops::" + _n] = arith(_o)


def arith_assign(op):
    def f(c):
        a, b = deref(c, c.args[0]), deref(c, c.args[1])
        if isinstance(a, Poly) and isinstance(b, Poly):
            t = c.ty[3][0]
            r = c.E.binop(c.s, op, a, b, t)
            s = c.s.copy()
            c.E.write(s, c.args[0].cell, c.args[0].path, r)
            return [(s, UNIT)]
        return NotImplemented
    return f


for _n, _o in (("AddAssign::add_assign", "Add"), ("SubAssign::sub_assign", "Sub"), ("MulAssign::mul_assign", "Mul"), ("DivAssign::div_assign", "Div")):
    STD["std::ops::" + _n] = arith_assign(_o)


@std("std::ops::Neg::neg")
def m_neg(c):
    a = deref(c, c.args[0])
    if isinstance(a, Poly):
        return c.ret(-a)
    return NotImplemented


@std("std::ops::Not::not")
def m_not(c):
    a = deref(c, c.args[0])
    if isinstance(a, T):
        return c.ret(bnot(a))
    return NotImplemented


# ---- floats ---------------------------------------------------------------------------------------

def fabs(E, s, p):
    if p.is_const():
        return const(abs(p.const()))
    d = s.store.bounds(p)
    if not d.empty() and d.lo()[0] >= 0:
        return p
    if not d.empty() and d.hi()[0] <= 0:
        return -p
    k, lead, c0 = p.normalize(keep_const=True)
    return P(mk("abs", k, sort="int" if is_int_poly(p) else "real")).scale(abs(lead))


@std("core::f64::<impl f64>::abs", "std::f64::<impl f64>::abs", "core::num::<impl i32>::abs", "core::num::<impl i64>::abs", "core::num::<impl isize>::abs")
def m_abs(c):
    p = deref(c, c.args[0])
    return c.ret(fabs(c.E, c.s, p))


def powf(a, b):
    if b.is_const():
        n = b.const()
        if n == 0:
            return ONE
        if n == 1:
            return a
        if isinstance(n, int) and abs(n) <= 6:
            r = ONE
            for _ in range(abs(n)):
                r = r * a
            return r if n > 0 else r.inv()
    if a.is_const() and a.const() == 1:
        return ONE
    if len(a.d) == 1:
        # (x^u)^v = x^(uv) wherever x^u is a real power (u not an integer constant)
        (m, c), = a.d.items()
        if c == 1 and len(m) == 1 and m[0][0].op == "pow" and not (m[0][0].args[1].is_const() and isinstance(m[0][0].args[1].const(), int)):
            return rpow(m[0][0].args[0], m[0][0].args[1].scale(m[0][1]) * b)
        if c == 1 and len(m) == 1 and m[0][0].op == "exp":
            return fexp(m[0][0].args[0].scale(m[0][1]) * b)
    if not b.is_const():
        # (q^k)^v = q^(kv) for a linear q (positive wherever the power is used)
        x = linear_root(a)
        if x is not None:
            return rpow(x[0], b.scale(x[1]))
    return P(mk("pow", a, b, sort="real"))


def linear_root(p):
    """(q, k) with p = q^k, q linear with a positive constant term, k > 1; or None"""
    k = p.degree() if hasattr(p, "degree") else max((sum(e for _, e in m) for m in p.d), default=0)
    c = p.d.get((), 0)
    if k < 2 or k > 12 or c <= 0 or any(e < 0 for m in p.d for _, e in m):
        return None
    s = round(float(c) ** (1.0 / k), 9)
    s = Fraction(s).limit_denominator(10000)
    if s <= 0 or s ** k != c:
        return None
    lin = Poly({m: v for m, v in p.d.items() if len(m) == 1 and m[0][1] == 1})
    q = const(s) + lin.scale(Fraction(1) / (k * s ** (k - 1)))
    r = ONE
    for _ in range(k):
        r = r * q
    return (q, k) if r == p else None


def rpow(a, b):
    """a^b with the canonical sign of the exponent: x^(-y) = 1/x^y"""
    a, b = P(a), P(b)
    if not b.is_const():
        k, lead, c0 = b.normalize(keep_const=True)
        if lead < 0:
            return powf(a, -b).inv()
    return powf(a, b)


@std("std::f64::<impl f64>::powf")
def m_powf(c):
    return c.ret(rpow(*c.args))


@std("std::f64::<impl f64>::powi")
def m_powi(c):
    return m_powf(c)


def fexp(p):
    if p.is_const() and p.const() == 0:
        return ONE
    a = p.atom()
    if a is not None and a.op == "ln":
        return a.args[0]              # exp(ln x) = x where ln x is defined
    k, lead, c0 = p.normalize(keep_const=True)
    if lead < 0:
        return fexp(-p).inv()
    return P(mk("exp", p, sort="real"))


def fln(p):
    if p.is_const() and p.const() == 1:
        return ZERO
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if c == 1 and len(m) == 1 and m[0][0].op == "exp":
            return m[0][0].args[0].scale(m[0][1])
    return P(mk("ln", p, sort="real"))


@std("std::f64::<impl f64>::exp")
def m_exp(c):
    return c.ret(fexp(c.args[0]))


@std("std::f64::<impl f64>::ln")
def m_ln(c):
    return c.ret(fln(c.args[0]))


def unary(name):
    def f(c):
        return c.ret(P(mk(name, c.args[0], sort="real")))
    return f


for _n in ("sqrt", "floor", "ceil", "trunc", "round", "fract", "signum", "sin", "cos", "ln_1p", "exp_m1", "log10"):
    for _p in ("std::f64::<impl f64>::", "core::f64::<impl f64>::"):
        STD[_p + _n] = unary("f" + _n if _n not in ("sqrt",) else _n)


def rounded(name):
    """in terms of truncation wherever that is possible"""
    def f(c):
        v = P(c.args[0])
        t = P(mk("ftrunc", v, sort="real"))
        if name == "fract":
            return c.ret(v - t)
        d = c.s.store.bounds(v)
        if not d.empty() and d.lo()[0] >= 0:
            return c.ret(t if name == "floor" else t + loops.ind(cmp("!=", v - t, False)))
        return c.ret(P(mk("f" + name, v, sort="real")))
    return f


for _n in ("fract", "floor", "ceil"):
    for _p in ("std::f64::<impl f64>::", "core::f64::<impl f64>::"):
        STD[_p + _n] = rounded(_n)


@std("std::f64::<impl f64>::log")
def m_log(c):
    a, b = c.args
    if b.is_const() and abs(float(b.const()) - 2.718281828459045) < 1e-15:
        return c.ret(fln(a))
    return c.ret(P(mk("logb", a, b, sort="real")))


@std("core::f64::<impl f64>::is_nan")
def m_isnan(c):
    return c.ret(FALSE)


# ---- integers ---------------------------------------------------------------------------------------

@std("core::num::<impl u32>::abs_diff", "core::num::<impl i32>::abs_diff", "core::num::<impl i32>::unsigned_abs")
def m_absdiff(c):
    p = c.args[0] - c.args[1] if len(c.args) > 1 else c.args[0]
    return c.ret(fabs(c.E, c.s, p))


@std("core::num::<impl i32>::rem_euclid", "core::num::<impl i64>::rem_euclid")
def m_rem_euclid(c):
    return euclid(c, lambda a, b, r, up: r + b if up > 0 else r - b if up < 0 else r)


@std("core::num::<impl i32>::div_euclid", "core::num::<impl i64>::div_euclid")
def m_div_euclid(c):
    return euclid(c, lambda a, b, r, up: iexpr("idiv", a, b) - up)


def euclid(c, f):
    """f(dividend, divisor, truncated remainder, sign of the divisor when the remainder is negative, else 0)"""
    a, b = c.args
    if decide(c, cmp("==", b, True)):
        c.panic("division by zero", c.s)
        return []
    lo = int_range(c.ty[2])[0]
    if lo < 0 and not c.s.store.bounds(b).inter(dset((-1,))).empty() and decide(c, band(cmp("==", a - lo, True), cmp("==", b + 1, True))):
        c.panic("overflow", c.s)
        return []
    r = iexpr("irem", a, b)
    if c.s.store.bounds(a).lo()[0] >= 0 or not decide(c, cmp("<", a, True)) or decide(c, cmp("==", r, True)):
        return c.ret(f(a, b, r, 0))
    up = 1 if decide(c, cmp(">", b, True)) else -1
    st = c.s.store.refine(r + b.scale(up), drange(1, None))     # |remainder| < |divisor|
    return [] if st is None else [(c.s.with_store(st), f(a, b, r, up))]


# ---- ranges -----------------------------------------------------------------------------------------

@std("std::ops::RangeInclusive::<Idx>::new")
def m_ri_new(c):
    return c.ret(Agg("adt", "core::ops::range::RangeInclusive", 0, (c.args[0], c.args[1], FALSE)))


@std("std::ops::Range::<Idx>::contains", "std::ops::RangeInclusive::<Idx>::contains", "std::ops::RangeBounds::contains")
def m_contains(c):
    r = c.val(0)
    x = deref(c, c.args[1])
    if isinstance(r, Agg) and len(r.fields) >= 2:
        lo, hi = r.fields[0], r.fields[1]
        incl = r.path.endswith("RangeInclusive")
        lo, hi = deref(c, lo), deref(c, hi)
        if isinstance(lo, Poly) and isinstance(hi, Poly) and isinstance(x, Poly):
            return c.ret(band(cmp("<=", lo - x), cmp("<=" if incl else "<", x - hi)))
        # ordered user type
        out = []
        for s, o1 in compare(c, c.s, lo, x):
            o1 = o1.fields[0] if isinstance(o1, Agg) and o1.path == OPTION else o1
            if o1.variant == 2:
                out.append((s, FALSE))
                continue
            for s2, o2 in compare(c, s, x, hi):
                o2 = o2.fields[0] if isinstance(o2, Agg) and o2.path == OPTION else o2
                ok = o2.variant <= 1 if incl else o2.variant == 0
                out.append((s2, TRUE if ok else FALSE))
        return out
    return NotImplemented


# ---- Option / Result ----------------------------------------------------------------------------------

def split_option(c, s, v):
    """-> [(state, inner value | None)]"""
    E = c.E
    while isinstance(v, Ref):
        v = E.read(s, v.cell, v.path)
    if isinstance(v, Agg):
        return [(s, v.fields[0] if v.variant == 1 else None)]
    d = E.discr_of(v)
    out = []
    st = s.store.refine(d, dconst(0))
    if st is not None:
        out.append((s.with_store(st), None))
    st = s.store.refine(d, dconst(1))
    if st is not None:
        s2 = s.with_store(st)
        out.append((s2, E.proj_field(v, 1, 0)))
    return out


def split_result(c, s, v):
    """-> [(state, ok?, payload)]"""
    E = c.E
    if isinstance(v, Agg):
        return [(s, v.variant == 0, v.fields[0])]
    d = E.discr_of(v)
    out = []
    for dv, ok in ((0, True), (1, False)):
        st = s.store.refine(d, dconst(dv))
        if st is not None:
            out.append((s.with_store(st), ok, E.proj_field(v, dv, 0)))
    return out


@std("std::option::Option::<T>::unwrap", "std::option::Option::<T>::expect")
def m_unwrap(c):
    out = []
    for s, v in split_option(c, c.s, c.args[0]):
        if v is None:
            c.panic("unwrap", s)
        else:
            out.append((s, v))
    return out


@std("std::result::Result::<T, E>::unwrap", "std::result::Result::<T, E>::expect")
def m_runwrap(c):
    out = []
    for s, ok, v in split_result(c, c.s, c.args[0]):
        if ok:
            out.append((s, v))
        else:
            c.panic("unwrap", s)
    return out


@std("std::result::Result::<T, E>::ok")
def m_rok(c):
    return [(s, some(v) if ok else NONE) for s, ok, v in split_result(c, c.s, c.args[0])]


@std("std::result::Result::<T, E>::is_ok", "std::result::Result::<T, E>::is_err")
def m_risok(c):
    w = c.ty[2].endswith("is_ok")
    return [(s, TRUE if ok == w else FALSE) for s, ok, v in split_result(c, c.s, c.val(0))]


@std("std::result::Result::<T, E>::unwrap_or_else")
def m_runwrap_or_else(c):
    out = []
    for s, ok, v in split_result(c, c.s, c.args[0]):
        if ok:
            out.append((s, v))
        else:
            out += c.E.apply(s, c.args[1], [v], c.rty, c.depth + 1, c.site)
    return out


@std("std::option::Option::<T>::unwrap_or")
def m_unwrap_or(c):
    return [(s, c.args[1] if v is None else v) for s, v in split_option(c, c.s, c.args[0])]


@std("std::option::Option::<T>::unwrap_or_else")
def m_unwrap_or_else(c):
    out = []
    for s, v in split_option(c, c.s, c.args[0]):
        if v is None:
            out += c.E.apply(s, c.args[1], [], c.rty, c.depth + 1, c.site)
        else:
            out.append((s, v))
    return out


def default_of(c, s, ty):
    E = c.E
    for imp in E.F.impls_by_trait.get("core::default::Default", ()):
        b = {}
        if unify(imp["selfty"], ty, b):
            fn = E.F.fns[imp["methods"]["default"]]
            return E.call_fn(fn, s, [], b, c.depth, c.site)
    c2 = Ctx(E, s, [], c.ty, ty, c.depth, c.site)
    r = m_default(c2)
    if r is NotImplemented:
        raise Imprecise("default of %s" % tystr(ty))
    return r


@std("std::option::Option::<T>::unwrap_or_default")
def m_unwrap_or_default(c):
    out = []
    for s, v in split_option(c, c.s, c.args[0]):
        if v is None:
            out += default_of(c, s, c.rty)
        else:
            out.append((s, v))
    return out


@std("std::option::Option::<T>::is_some")
def m_is_some(c):
    v = c.val(0)
    if isinstance(v, Agg):
        return c.ret(TRUE if v.variant == 1 else FALSE)
    return c.ret(cmp("==", c.E.discr_of(v) - 1, True))


@std("std::option::Option::<T>::is_none")
def m_is_none(c):
    v = c.val(0)
    if isinstance(v, Agg):
        return c.ret(FALSE if v.variant == 1 else TRUE)
    return c.ret(cmp("==", c.E.discr_of(v), True))


@std("std::option::Option::<T>::map", "std::option::Option::<T>::and_then")
def m_omap(c):
    flat = c.ty[2].endswith("and_then")
    out = []
    for s, v in split_option(c, c.s, c.args[0]):
        if v is None:
            out.append((s, NONE))
        else:
            for s2, r in c.E.apply(s, c.args[1], [v], c.rty[2][0] if not flat else c.rty, c.depth + 1, c.site):
                out.append((s2, r if flat else some(r)))
    return out


@std("std::option::Option::<T>::map_or")
def m_omap_or(c):
    out = []
    for s, v in split_option(c, c.s, c.args[0]):
        if v is None:
            out.append((s, c.args[1]))
        else:
            out += c.E.apply(s, c.args[2], [v], c.rty, c.depth + 1, c.site)
    return out


@std("std::option::Option::<T>::filter")
def m_ofilter(c):
    E = c.E
    out = []
    for s, v in split_option(c, c.s, c.args[0]):
        if v is None:
            out.append((s, NONE))
            continue
        s = s.copy()
        E.fid += 1
        cell = ("B", E.fid)
        s.mem[cell] = v
        for s2, b in E.apply(s, c.args[1], [Ref(cell)], ("bool",), c.depth + 1, c.site):
            for st in s2.store.assume(b, True):
                out.append((s2.with_store(st), some(v)))
            for st in s2.store.assume(b, False):
                out.append((s2.with_store(st), NONE))
    return out


@std("std::option::Option::<T>::as_ref", "std::option::Option::<T>::as_mut")
def m_as_ref(c):
    a = c.args[0]
    out = []
    for s, v in split_option(c, c.s, a):
        if v is None:
            out.append((s, NONE))
        else:
            out.append((s, some(Ref(a.cell, a.path + (("v", 1), ("f", 0)), a.mut))))
    return out


@std("std::option::Option::<&T>::cloned", "std::option::Option::<&T>::copied")
def m_cloned(c):
    out = []
    for s, v in split_option(c, c.s, c.args[0]):
        if v is None:
            out.append((s, NONE))
        else:
            while isinstance(v, Ref):
                v = c.E.read(s, v.cell, v.path)
            out.append((s, some(v)))
    return out


@std("std::option::Option::<T>::ok_or", "std::option::Option::<T>::ok_or_else")
def m_ok_or(c):
    out = []
    for s, v in split_option(c, c.s, c.args[0]):
        if v is None:
            out.append((s, Agg("adt", RESULT, 1, (c.args[1],))))
        else:
            out.append((s, Agg("adt", RESULT, 0, (v,))))
    return out


@std("std::ops::Try::branch")
def m_branch(c):
    v = c.args[0]
    t = c.ty[3][0]
    CF = "core::ops::control_flow::ControlFlow"
    if t[0] == "adt" and t[1] == OPTION:
        out = []
        for s, x in split_option(c, c.s, v):
            out.append((s, Agg("adt", CF, 1, (NONE,)) if x is None else Agg("adt", CF, 0, (x,))))
        return out
    out = []
    for s, ok, x in split_result(c, c.s, v):
        out.append((s, Agg("adt", CF, 0, (x,)) if ok else Agg("adt", CF, 1, (Agg("adt", RESULT, 1, (x,)),))))
    return out


@std("std::ops::FromResidual::from_residual")
def m_from_residual(c):
    v = c.args[0]
    return c.ret(v)


# ---- Vec / slices -------------------------------------------------------------------------------------

@std("std::vec::Vec::<T>::new", "std::vec::Vec::<T>::with_capacity")
def m_vec_new(c):
    return c.ret(Agg("vec", None, 0, ()))


@std("std::vec::Vec::<T, A>::len", "core::slice::<impl [T]>::len")
def m_len(c):
    return c.ret(c.E.length(c.s, c.val(0)))


@std("core::str::<impl str>::len", "std::string::String::len")
def m_strlen(c):
    v = c.val(0)
    if isinstance(v, Str):
        return c.ret(const(len(v.s.encode())))
    return c.ret(P(mk("len", c.E.term(c.s, v), sort="int")))


@std("std::vec::Vec::<T, A>::is_empty", "core::slice::<impl [T]>::is_empty", "core::str::<impl str>::is_empty")
def m_is_empty(c):
    v = c.val(0)
    if isinstance(v, Str):
        return c.ret(TRUE if not v.s else FALSE)
    return c.ret(cmp("==", c.E.length(c.s, v), True))


@std("std::vec::Vec::<T, A>::push")
def m_push(c):
    E, s = c.E, c.s.copy()
    r = c.args[0]
    v = E.read(s, r.cell, r.path)
    x = c.args[1]
    if isinstance(v, Agg) and v.kind == "vec":
        nv = Agg("vec", None, 0, v.fields + (x,))
    elif isinstance(v, Sym):
        nv = Sym(mk("push", v.t, E.term(s, x)), v.ty)
    else:
        raise Imprecise("push on %r" % (v,))
    E.write(s, r.cell, r.path, nv)
    return [(s, UNIT)]


@std("std::vec::Vec::<T, A>::clear")
def m_clear(c):
    s = c.s.copy()
    r = c.args[0]
    c.E.write(s, r.cell, r.path, Agg("vec", None, 0, ()))
    return [(s, UNIT)]


@std("std::vec::Vec::<T, A>::pop")
def m_pop(c):
    E, s = c.E, c.s.copy()
    r = c.args[0]
    v = E.read(s, r.cell, r.path)
    if isinstance(v, Agg) and v.kind == "vec":
        if not v.fields:
            return [(s, NONE)]
        E.write(s, r.cell, r.path, Agg("vec", None, 0, v.fields[:-1]))
        return [(s, some(v.fields[-1]))]
    n = E.length(s, v)
    out = []
    st = s.store.refine(n, dconst(0))
    if st is not None:
        out.append((s.with_store(st), NONE))
    for st in s.store.assume(cmp(">", n, True), True):
        s2 = s.with_store(st)
        last = E.index(s2, v, n - 1)
        E.write(s2, r.cell, r.path, Sym(mk("popped", v.t), v.ty))
        out.append((s2, some(last)))
    return out


@std("std::vec::Vec::<T, A>::insert")
def m_insert(c):
    E, s = c.E, c.s.copy()
    r = c.args[0]
    v = E.read(s, r.cell, r.path)
    i, x = c.args[1], c.args[2]
    n = E.length(s, v)
    out = []
    for st in s.store.assume(cmp(">", i - n, True), True):
        c.panic("insert index", s.with_store(st))
    for st in s.store.assume(cmp("<=", i - n, True), True):
        s2 = s.with_store(st)
        k = st.bounds(i).singleton()
        if isinstance(v, Agg) and v.kind == "vec" and k is not None:
            f = list(v.fields)
            f.insert(int(k), x)
            nv = Agg("vec", None, 0, f)
        else:
            nv = Sym(mk("insert", E.term(s2, v), i, E.term(s2, x)), v.ty if isinstance(v, Sym) else E.type_of_value(v))
        E.write(s2, r.cell, r.path, nv)
        out.append((s2, UNIT))
    return out


@std("std::vec::Vec::<T, A>::remove")
def m_remove(c):
    E, s = c.E, c.s.copy()
    r = c.args[0]
    v = E.read(s, r.cell, r.path)
    i = c.args[1]
    n = E.length(s, v)
    out = []
    for st in s.store.assume(cmp(">=", i - n, True), True):
        c.panic("remove index", s.with_store(st))
    for st in s.store.assume(cmp("<", i - n, True), True):
        s2 = s.with_store(st)
        old = E.index(s2, v, i)
        k = st.bounds(i).singleton()
        if isinstance(v, Agg) and v.kind == "vec" and k is not None:
            f = list(v.fields)
            del f[int(k)]
            nv = Agg("vec", None, 0, f)
        else:
            nv = Sym(mk("removed", E.term(s2, v), i), v.ty if isinstance(v, Sym) else E.type_of_value(v))
        E.write(s2, r.cell, r.path, nv)
        out.append((s2, old))
    return out


@std("std::ops::Index::index", "std::ops::IndexMut::index_mut")
def m_index(c):
    E = c.E
    r = c.args[0]
    i = c.args[1]
    v = c.val(0)
    base = r
    while isinstance(base, Ref):
        inner = E.read(c.s, base.cell, base.path)
        if isinstance(inner, Ref):
            base = inner
        else:
            break
    if isinstance(i, Poly):
        n = E.length(c.s, v)
        out = []
        for st in c.s.store.assume(cmp(">=", i - n, True), True):
            c.panic("bounds", c.s.with_store(st))
        for st in c.s.store.assume(cmp("<", i - n, True), True):
            s2 = c.s.with_store(st)
            out.append((s2, Ref(base.cell, base.path + (("i", i),), True)))
        return out
    if isinstance(i, Agg) and i.path and "Range" in i.path:
        return range_index(c, base, v, i)
    return NotImplemented


def range_ends(r, n):
    name = r.path.split("::")[-1]
    lo = r.fields[0] if name in ("Range", "RangeFrom", "RangeInclusive") else ZERO
    hi = {"Range": lambda: r.fields[1], "RangeTo": lambda: r.fields[0], "RangeFrom": lambda: n, "RangeFull": lambda: n, "RangeInclusive": lambda: r.fields[1] + 1, "RangeToInclusive": lambda: r.fields[0] + 1}[name]()
    return lo, hi


def range_index(c, base, v, r):
    E = c.E
    isstr = isinstance(v, Str) or isinstance(v, Agg) and v.kind == "str"
    n = E.length(c.s, v) if not (isstr or (isinstance(v, Sym) and is_str_ty(v.ty))) else strlen(c, v)
    lo, hi = range_ends(r, n)
    bad = bor(cmp(">", lo - hi, True), cmp(">", hi - n, True))
    for st in c.s.store.assume(bad, True):
        c.panic("bounds", c.s.with_store(st))
    out = []
    for st in c.s.store.assume(bad, False):
        s2 = c.s.with_store(st)
        if isstr:
            x = str_slice(c, s2, v, lo, hi)
            if x is None:
                c.panic("charboundary", s2)
            else:
                out.append((s2, x))
        elif isinstance(v, Sym) and is_str_ty(v.ty):
            # slicing a str also panics off a character boundary
            cb = mk("charboundary", E.term(s2, v), lo, hi)
            f = batom("isboundary", E.term(s2, v), lo, hi)
            for st3 in s2.store.assume(f, False):
                c.panic("charboundary", s2.with_store(st3))
            for st3 in s2.store.assume(f, True):
                out.append((s2.with_store(st3), Sym(mk("substr", E.term(s2, v), lo, hi), ("ref", ("str",), False))))
        else:
            out.append((s2, slice_value(c, s2, v, lo, hi)))
    return out


def slice_value(c, s, v, lo, hi):
    E = c.E
    if isinstance(v, Agg) and v.kind in ("vec", "array"):
        a, b = s.store.bounds(lo).singleton(), s.store.bounds(hi).singleton()
        if a is not None and b is not None:
            E.fid += 1
            cell = ("B", E.fid)
            s.mem[cell] = Agg("array", None, 0, v.fields[int(a):int(b)])
            return Ref(cell)
    E.fid += 1
    cell = ("B", E.fid)
    ety = E.elem_ty(v.ty) if isinstance(v, Sym) else ("other", "?")
    kv = loops.fresh()
    s3 = s.store.refine(P(kv) - (hi - lo), drange(None, -1))
    e = E.term(s, E.index(s.with_store(s3) if s3 is not None else s, v, P(kv) + lo))
    s.mem[cell] = Sym(loops.mapvec_k(hi - lo, kv, e), ("slice", ety))
    return Ref(cell)


def is_str_ty(t):
    return t == ("str",) or (t[0] == "ref" and t[1] == ("str",)) or (t[0] == "adt" and t[1].endswith("string::String"))


def strlen(c, v):
    if isinstance(v, Str):
        return const(len(v.s.encode()))
    if isinstance(v, Agg) and v.kind == "str":
        return const(len(v.fields))
    return P(mk("len", c.E.term(c.s, v), sort="int"))


@std("core::slice::<impl [T]>::first", "core::slice::<impl [T]>::last", "core::slice::<impl [T]>::get", "std::vec::Vec::<T, A>::first", "std::vec::Vec::<T, A>::last")
def m_first(c):
    E = c.E
    base = base_ref(c, c.args[0])
    v = E.read(c.s, base.cell, base.path)
    n = E.length(c.s, v)
    nm = c.ty[2]
    if nm.endswith("get"):
        i = c.args[1]
        if not isinstance(i, Poly):
            return NotImplemented
    else:
        i = ZERO if nm.endswith("first") else n - 1
    ok = band(cmp(">=", i, True), cmp("<", i - n, True))
    out = []
    for st in c.s.store.assume(ok, True):
        out.append((c.s.with_store(st), some(Ref(base.cell, base.path + (("i", i),)))))
    for st in c.s.store.assume(ok, False):
        out.append((c.s.with_store(st), NONE))
    return out


def base_ref(c, r):
    while isinstance(r, Ref):
        inner = c.E.read(c.s, r.cell, r.path)
        if isinstance(inner, Ref):
            r = inner
        elif isinstance(inner, Agg) and inner.kind == "box":
            r = inner.fields[0]
        else:
            return r
    raise Imprecise("base of %r" % (r,))


@std("std::vec::from_elem")
def m_from_elem(c):
    E = c.E
    x, n = c.args
    k = c.s.store.bounds(n).singleton()
    if k is not None and k <= 64:
        return c.ret(Agg("vec", None, 0, (x,) * int(k)))
    return c.ret(Sym(loops.mapvec_k(n, loops.fresh(), E.term(c.s, x)), c.rty))


@std("std::boxed::box_assume_init_into_vec_unsafe")
def m_box_into_vec(c):
    E = c.E
    v = c.args[0]
    while isinstance(v, Agg) and v.kind == "box":
        v = v.fields[0]
    while isinstance(v, Ref):
        v = E.read(c.s, v.cell, v.path)
    while isinstance(v, Agg) and v.kind == "adt" and v.fields:
        v = v.fields[1 if v.path.endswith("::MaybeUninit") and len(v.fields) == 2 else 0]
    if isinstance(v, Agg) and v.kind == "array":
        return c.ret(Agg("vec", None, 0, v.fields))
    if isinstance(v, Agg) and v.kind == "muinit":
        return c.ret(Agg("vec", None, 0, v.fields[0].fields))
    raise Imprecise("vec! of %r" % (v,))


@std("std::boxed::Box::<T>::new_uninit")
def m_box_uninit(c):
    E = c.E
    E.fid += 1
    cell = ("B", E.fid)
    s = c.s.copy()
    # MaybeUninit { uninit | value: ManuallyDrop { value: T } }: the store happens through field 1.0
    s.mem[cell] = Agg("adt", "core::mem::MaybeUninit", 0, (UNIT, Agg("adt", "core::mem::ManuallyDrop", 0, (Agg("adt", "core::mem::MaybeDangling", 0, (UNIT,)),))))
    return [(s, Agg("box", None, 0, (Ref(cell, (), True),)))]


# ---- strings / formatting: opaque ---------------------------------------------------------------------

def opaque_unit(c):
    return c.ret(UNIT)


def fresh_fmt(c):
    return c.ret(Sym(mk("fmt"), ("other", "fmt")))


for _n in ("std::fmt::Arguments::<'a>::new", "core::fmt::rt::Argument::<'_>::new_display", "core::fmt::rt::Argument::<'_>::new_debug",
           "std::fmt::Arguments::<'a>::from_str", "std::fmt::Arguments::<'a>::from_str_nonconst", "std::fmt::format", "core::fmt::rt::Argument::<'_>::new_lower_exp"):
    STD[_n] = fresh_fmt


@std("std::hint::must_use", "std::convert::identity")
def m_id(c):
    return c.ret(c.args[0])


@std("core::str::<impl str>::find", "std::str::<impl str>::to_uppercase", "core::str::<impl str>::parse")
def m_str(c):
    E = c.E
    return c.ret(E.value_of(mk("call", c.ty[2], *[E.term(c.s, a) for a in c.args]), c.rty))


@std("core::str::<impl str>::contains")
def m_strcontains(c):
    return c.ret(batom("strcontains", *[c.E.term(c.s, a) for a in c.args]))


# ---- HashSet ------------------------------------------------------------------------------------------

def set_contains(E, s, setv, x):
    """membership formula of element term x in the set term"""
    t = setv.t if isinstance(setv, Sym) else setv
    while True:
        if t.op == "emptyset":
            return FALSE
        if t.op == "setins":
            same = eq_terms(s, t.args[1], x)
            return bor(same, set_contains(E, s, t.args[0], x))
        if t.op == "setdel":
            same = eq_terms(s, t.args[1], x)
            return band(bnot(same), set_contains(E, s, t.args[0], x))
        return batom("member", t, x)


def eq_terms(s, a, b):
    if a is b or a == b:
        return TRUE
    if isinstance(a, T) and isinstance(b, T) and a.op == "date" and b.op == "date":
        return cmp("==", a.args[0] - b.args[0], True)
    a_, b_ = sorted((a, b), key=repr)
    return batom("eq", a_, b_)


@std("std::collections::HashSet::<T>::new")
def m_set_new(c):
    return c.ret(Sym(mk("emptyset"), c.rty))


@std("std::collections::HashSet::<T, S, A>::contains", "std::collections::HashSet::<T, S>::contains")
def m_set_contains(c):
    return c.ret(set_contains(c.E, c.s, c.val(0), c.E.term(c.s, c.args[1])))


@std("std::collections::HashSet::<T, S, A>::insert", "std::collections::HashSet::<T, S>::insert")
def m_set_insert(c):
    E, s = c.E, c.s.copy()
    r = c.args[0]
    v = E.read(s, r.cell, r.path)
    x = E.term(s, c.args[1])
    E.write(s, r.cell, r.path, Sym(mk("setins", v.t, x), v.ty))
    return [(s, bnot(set_contains(E, s, v, x)))]


@std("std::collections::HashSet::<T, S, A>::remove", "std::collections::HashSet::<T, S>::remove")
def m_set_remove(c):
    E, s = c.E, c.s.copy()
    r = c.args[0]
    v = E.read(s, r.cell, r.path)
    x = E.term(s, c.args[1])
    E.write(s, r.cell, r.path, Sym(mk("setdel", v.t, x), v.ty))
    return [(s, set_contains(E, s, v, x))]


@std("std::collections::HashSet::<T, S, A>::clear", "std::collections::HashSet::<T, S>::clear")
def m_set_clear(c):
    E, s = c.E, c.s.copy()
    r = c.args[0]
    v = E.read(s, r.cell, r.path)
    E.write(s, r.cell, r.path, Sym(mk("emptyset"), v.ty))
    return [(s, UNIT)]


@std("std::collections::HashSet::<T, S, A>::is_empty", "std::collections::HashSet::<T, S>::is_empty")
def m_set_is_empty(c):
    v = c.val(0)
    if v.t.op == "emptyset":
        return c.ret(TRUE)
    return c.ret(batom("isempty", v.t))


# ---- closures ------------------------------------------------------------------------------------------

@std("std::ops::Fn::call", "std::ops::FnMut::call_mut", "std::ops::FnOnce::call_once")
def m_call(c):
    f = deref(c, c.args[0])
    a = c.args[1]
    args = list(a.fields)
    return c.E.apply(c.s, f, args, c.rty, c.depth + 1, c.site)


@std("std::mem::swap")
def m_swap(c):
    E, s = c.E, c.s.copy()
    a, b = c.args
    x, y = E.read(s, a.cell, a.path), E.read(s, b.cell, b.path)
    E.write(s, a.cell, a.path, y)
    E.write(s, b.cell, b.path, x)
    return [(s, UNIT)]


@std("std::mem::replace")
def m_replace(c):
    E, s = c.E, c.s.copy()
    a = c.args[0]
    x = E.read(s, a.cell, a.path)
    E.write(s, a.cell, a.path, c.args[1])
    return [(s, x)]


# ---- iterators -----------------------------------------------------------------------------------------
# An iterator is a sequence description plus a position:
#   Agg('it','seq',0,(seq, pos))   seq: Agg('seq', kind, 0, ...)
# seq_len / seq_get give length and k-th item; they are total functions of the position so that
# loops over iterators have the position as their induction variable.

def seq(kind, *fields):
    return Agg("seq", kind, 0, fields)


def it(sq, pos=ZERO):
    return Agg("it", "iter", 0, (sq, pos))


def seq_len(c, s, q):
    E = c.E
    k = q.path
    if k == "ref" or k == "own":
        v = q.fields[0]
        while isinstance(v, Ref):
            v = E.read(s, v.cell, v.path)
        return E.length(s, v)
    if k == "range":
        return q.fields[1] - q.fields[0]     # callers treat negative as empty
    if k in ("map", "enumerate", "rev", "cloned", "filter", "filter_map"):
        return seq_len(c, s, q.fields[0])
    if k == "chain":
        return seq_len(c, s, q.fields[0]) + seq_len(c, s, q.fields[1])
    if k == "skip":
        return seq_len(c, s, q.fields[0]) - q.fields[1]
    if k == "take":
        n = seq_len(c, s, q.fields[0])
        f = cmp("<=", q.fields[1] - n, True)
        t = s.store.truth(f)
        if t is None:
            raise NeedAssume(f)
        return q.fields[1] if t else n
    if k == "zip":
        n, m = seq_len(c, s, q.fields[0]), seq_len(c, s, q.fields[1])
        if s.store.equal(n, m):
            return n
        f = cmp("<=", n - m, True)
        t = s.store.truth(f)
        if t is None:
            raise NeedAssume(f)
        return n if t else m
    if k == "windows":
        return seq_len(c, s, q.fields[0]) - q.fields[1] + 1
    if k == "step_by":
        n, d = seq_len(c, s, q.fields[0]), q.fields[1]
        return iexpr("idiv", n + (d - 1), d)
    raise Imprecise("length of sequence %s" % k)


def seq_get(c, s, q, i):
    """-> [(state, item)]"""
    E = c.E
    k = q.path
    if k == "ref":
        r = q.fields[0]
        while True:
            inner = E.read(s, r.cell, r.path)
            if isinstance(inner, Ref):
                r = inner
            else:
                break
        return [(s, Ref(r.cell, r.path + (("i", i),), r.mut))]
    if k == "own":
        return [(s, E.index(s, q.fields[0], i))]
    if k == "range":
        return [(s, q.fields[0] + i)]
    if k == "map":
        out = []
        for s2, x in seq_get(c, s, q.fields[0], i):
            out += E.apply(s2, q.fields[1], [x], ("other", "?"), c.depth + 1, c.site)
        return out
    if k == "enumerate":
        return [(s2, tup(i, x)) for s2, x in seq_get(c, s, q.fields[0], i)]
    if k == "rev":
        n = seq_len(c, s, q.fields[0])
        return seq_get(c, s, q.fields[0], n - 1 - i)
    if k == "cloned":
        out = []
        for s2, x in seq_get(c, s, q.fields[0], i):
            while isinstance(x, Ref):
                x = E.read(s2, x.cell, x.path)
            out.append((s2, x))
        return out
    if k == "skip":
        return seq_get(c, s, q.fields[0], i + q.fields[1])
    if k == "take":
        return seq_get(c, s, q.fields[0], i)
    if k == "step_by":
        return seq_get(c, s, q.fields[0], i * q.fields[1])
    if k == "chain":
        n = seq_len(c, s, q.fields[0])
        out = []
        for st in s.store.assume(cmp("<", i - n, True), True):
            out += seq_get(c, s.with_store(st), q.fields[0], i)
        for st in s.store.assume(cmp("<", i - n, True), False):
            out += seq_get(c, s.with_store(st), q.fields[1], i - n)
        return out
    if k == "windows":
        r = q.fields[0].fields[0]
        v = E.read(s, r.cell, r.path)
        while isinstance(v, Ref):
            v = E.read(s, v.cell, v.path)
        s = s.copy()
        w = slice_value(c, s, v, i, i + q.fields[1])
        return [(s, w)]
    if k == "zip":
        out = []
        for s2, x in seq_get(c, s, q.fields[0], i):
            for s3, y in seq_get(c, s2, q.fields[1], i):
                out.append((s3, tup(x, y)))
        return out
    raise Imprecise("item of sequence %s" % k)


def as_seq(c, v):
    """sequence of an IntoIterator value"""
    if isinstance(v, Agg) and v.kind == "it":
        if v.fields[1] == ZERO:
            return v.fields[0]
        return seq("skip", v.fields[0], v.fields[1])
    if isinstance(v, Agg) and v.kind == "adt" and v.path and v.path.endswith("range::Range"):
        return seq("range", v.fields[0], v.fields[1])
    if isinstance(v, Agg) and v.kind == "adt" and v.path and v.path.endswith("RangeInclusive"):
        return seq("range", v.fields[0], v.fields[1] + 1)
    if isinstance(v, Ref):
        inner = c.E.read(c.s, v.cell, v.path)
        if isinstance(inner, Agg) and inner.kind == "it":
            raise Imprecise("iteration by reference")
        return seq("ref", v)
    if isinstance(v, (Agg, Sym)):
        return seq("own", v)
    raise Imprecise("iteration over %r" % (v,))


@std("std::iter::IntoIterator::into_iter", "core::slice::<impl [T]>::iter", "core::slice::<impl [T]>::iter_mut")
def m_into_iter(c):
    v = c.args[0]
    if isinstance(v, Agg) and v.kind == "it":
        return c.ret(v)
    if isinstance(v, Agg) and v.kind == "adt" and v.path and v.path.endswith("range::Range") and isinstance(v.fields[0], Poly):
        return c.ret(it(as_seq(c, v)))
    return c.ret(it(as_seq(c, v)))


def adapt(kind, nargs=0):
    def f(c):
        q = as_seq(c, c.args[0])
        return c.ret(it(seq(kind, q, *c.args[1:1 + nargs])))
    return f


STD["std::iter::Iterator::map"] = adapt("map", 1)
STD["std::iter::Iterator::filter"] = adapt("filter", 1)
STD["std::iter::Iterator::filter_map"] = adapt("filter_map", 1)
STD["std::iter::Iterator::enumerate"] = adapt("enumerate")
STD["std::iter::Iterator::rev"] = adapt("rev")
STD["std::iter::Iterator::skip"] = adapt("skip", 1)
STD["std::iter::Iterator::take"] = adapt("take", 1)
STD["std::iter::Iterator::cloned"] = adapt("cloned")
STD["std::iter::Iterator::copied"] = adapt("cloned")


@std("std::iter::Iterator::zip")
def m_zip(c):
    return c.ret(it(seq("zip", as_seq(c, c.args[0]), as_seq(c, c.args[1]))))


@std("std::iter::Iterator::chain")
def m_chain(c):
    return c.ret(it(seq("chain", as_seq(c, c.args[0]), as_seq(c, c.args[1]))))


@std("core::slice::<impl [T]>::windows")
def m_windows(c):
    return c.ret(it(seq("windows", seq("ref", base_ref(c, c.args[0])), c.args[1])))


STD["std::iter::Iterator::step_by"] = adapt("step_by", 1)


@std("std::iter::Iterator::next")
def m_next(c):
    E = c.E
    r = c.args[0]
    v = E.read(c.s, r.cell, r.path)
    if isinstance(v, Agg) and v.kind == "adt" and v.path.endswith("range::Range"):
        v = it(as_seq(c, v))
    if isinstance(v, Ref):
        r = v
        v = E.read(c.s, r.cell, r.path)
    if not (isinstance(v, Agg) and v.kind == "it"):
        return NotImplemented
    q, pos = v.fields
    n = seq_len(c, c.s, q)
    if has_filter(q):
        # an item that is dropped: the loop around the call goes on with the next one
        out = []
        for st in c.s.store.assume(cmp(">=", pos - n, True), True):
            out.append((c.s.with_store(st), NONE))
        for st in c.s.store.assume(cmp("<", pos - n, True), True):
            for s3, keep, x in stream(c, c.s.with_store(st), q, pos):
                for tv in (True, False):
                    for y in s3.store.assume(keep, tv):
                        s4 = s3.with_store(y).copy()
                        E.write(s4, r.cell, r.path, it(q, pos + 1))
                        out.append((s4, some(x) if tv else SKIP))
        return out
    out = []
    for st in c.s.store.assume(cmp(">=", pos - n, True), True):
        out.append((c.s.with_store(st), NONE))
    for st in c.s.store.assume(cmp("<", pos - n, True), True):
        s2 = c.s.with_store(st)
        for s3, x in seq_get(c, s2, q, pos):
            s3 = s3.copy()
            E.write(s3, r.cell, r.path, it(q, pos + 1))
            out.append((s3, some(x)))
    return out


FILTERS = ("filter", "filter_map")


def has_filter(q):
    return q.path in FILTERS or any(isinstance(f, Agg) and f.kind == "seq" and has_filter(f) for f in q.fields)


def stream(c, s, q, i):
    """the i-th item of the underlying sequence: [(state, kept?, item)]"""
    E = c.E
    if not has_filter(q):
        return [(s2, TRUE, x) for s2, x in seq_get(c, s, q, i)]
    k = q.path
    out = []
    if k == "filter":
        for s2, keep, x in stream(c, s, q.fields[0], i):
            s2 = s2.copy()
            E.fid += 1
            cell = ("B", E.fid)
            s2.mem[cell] = x
            for s3, b in E.apply(s2, q.fields[1], [Ref(cell)], ("bool",), c.depth + 1, c.site):
                out.append((s3, band(keep, E.as_bool(b)), x))
        return out
    if k == "filter_map":
        for s2, keep, x in stream(c, s, q.fields[0], i):
            for s3, o in E.apply(s2, q.fields[1], [x], ("other", "?"), c.depth + 1, c.site):
                out += [(s4, keep if y is not None else FALSE, y) for s4, y in split_option(c, s3, o)]
        return out
    if k == "map":
        for s2, keep, x in stream(c, s, q.fields[0], i):
            for s3, y in E.apply(s2, q.fields[1], [x], ("other", "?"), c.depth + 1, c.site):
                out.append((s3, keep, y))
        return out
    if k == "cloned":
        for s2, keep, x in stream(c, s, q.fields[0], i):
            while isinstance(x, Ref):
                x = E.read(s2, x.cell, x.path)
            out.append((s2, keep, x))
        return out
    if k == "rev":
        return stream(c, s, q.fields[0], seq_len(c, s, q.fields[0]) - 1 - i)
    raise Imprecise("%s of a filtered sequence" % k)


def generic(c, s, q, fn=None):
    """one arbitrary iteration: (n, kv, base store, [(condition, keep, value)]); fn(state, item) -> [(state, value)]"""
    E = c.E
    out = []
    n = seq_len(c, s, q)
    kv = loops.fresh()
    base = s.store.refine(P(kv) - n, drange(None, -1))
    if base is None:
        return ZERO, kv, None, []
    s0 = s.with_store(base)
    for s2, keep, x in stream(c, s0, q, P(kv)):
        for s3, v in (fn(s2, x) if fn is not None else [(s2, x)]):
            d = closed.delta(s3.store, base)
            if d is None:
                raise Imprecise("sequence over a finite domain")
            if s3.ev != s.ev or any(s3.mem.get(cell) != val for cell, val in s.mem.items()):
                raise Imprecise("a closure over a sequence has effects")
            out.append((band(*d), keep, s3, v))
    return n, kv, base, out


def number(c, s, x):
    while isinstance(x, Ref):
        x = c.E.read(s, x.cell, x.path)
    if not isinstance(x, Poly):
        raise Imprecise("not a number: %r" % (x,))
    return x


def split_empty(c, q):
    """[(state, n)] by whether the sequence is empty; n is 0 for an empty one"""
    n = seq_len(c, c.s, q)
    out = []
    for st in c.s.store.assume(cmp("<=", n, True), True):
        out.append((c.s.with_store(st), ZERO))
    for st in c.s.store.assume(cmp(">", n, True), True):
        out.append((c.s.with_store(st), n))
    return out


def unroll(c, q, limit=64):
    k = c.s.store.bounds(seq_len(c, c.s, q)).singleton()
    if k is None or k > (8 if has_filter(q) else limit):
        return None
    return max(0, int(k))


def is_vec_ty(t):
    return t[0] == "adt" and t[1].endswith("vec::Vec")


def choose(items):
    """[(cond, value)] -> value"""
    return closed.select([v for _, v in items], [f for f, _ in items])


@std("std::iter::Iterator::collect")
def m_collect(c):
    E = c.E
    q = as_seq(c, c.args[0])
    if c.rty[0] == "adt" and not is_vec_ty(c.rty):
        return NotImplemented
    k = unroll(c, q)
    if k is not None:
        cur = [(c.s, ())]
        for i in range(k):
            nxt = []
            for s2, acc in cur:
                for s3, keep, x in stream(c, s2, q, const(i)):
                    nxt += [(s3.with_store(y), acc + (x,)) for y in s3.store.assume(keep, True)]
                    nxt += [(s3.with_store(y), acc) for y in s3.store.assume(keep, False)]
            cur = nxt
        return [(s, Agg("vec", None, 0, acc)) for s, acc in cur]
    out = []
    for s, n in split_empty(c, q):
        n, kv, base, cs = generic(c, s, q) if n is not ZERO else (ZERO, None, None, [])
        if not cs:
            out.append((s, Agg("vec", None, 0, ())))
            continue
        # the values of the items that are kept
        val = choose([(f, E.term(s3, v)) for f, keep, s3, v in cs if keep is not FALSE] or [(TRUE, ZERO)])
        kept = bor(*[band(f, keep) for f, keep, s3, v in cs]) if not all(keep is TRUE for _, keep, _, _ in cs) else TRUE
        out.append((s, Sym(loops.filtermap_k(n, kv, kept, val), c.rty)))
    return out


@std("std::iter::Iterator::sum", "std::iter::Iterator::product")
def m_sum(c):
    E = c.E
    q = as_seq(c, c.args[0])
    k = unroll(c, q)
    issum = c.ty[2].endswith("sum")
    unit = ZERO if issum else ONE
    if k is not None:
        cur = [(c.s, unit)]
        for i in range(k):
            nxt = []
            for s2, acc in cur:
                for s3, keep, x in stream(c, s2, q, const(i)):
                    x = number(c, s3, x)
                    nxt += [(s3.with_store(y), acc + x if issum else acc * x) for y in s3.store.assume(keep, True)]
                    nxt += [(s3.with_store(y), acc) for y in s3.store.assume(keep, False)]
            cur = nxt
        return cur
    out = []
    for s, n in split_empty(c, q):
        n, kv, base, cs = generic(c, s, q) if n is not ZERO else (ZERO, None, None, [])
        if not cs:
            out.append((s, unit))
            continue
        x = choose([(f, loops.ite(keep, number(c, s3, v) if keep is not FALSE else unit, unit)) for f, keep, s3, v in cs])
        out.append((s, loops.sum_k(n, kv, x) if issum else P(loops.close("prod", P(n), (kv,), [x], "real"))))
    return out


@std("std::iter::Iterator::count")
def m_count(c):
    q = as_seq(c, c.args[0])
    if not has_filter(q):
        return split_empty(c, q)
    out = []
    for s, n in split_empty(c, q):
        n, kv, base, cs = generic(c, s, q) if n is not ZERO else (ZERO, None, None, [])
        out.append((s, loops.sum_k(n, kv, loops.ind(bor(*[band(f, keep) for f, keep, _, _ in cs]))) if cs else ZERO))
    return out


def search(c, q, pred):
    """the first item at which pred(state, item) -> [(state, formula, result)] holds:
    ([(state at the hit, index, result)], [state without a hit])"""
    E = c.E
    k = unroll(c, q, 16)
    hits, miss = [], []
    if k is not None:
        cur = [c.s]
        for i in range(k):
            nxt = []
            for s2 in cur:
                for s3, keep, x in stream(c, s2, q, const(i)):
                    for y in s3.store.assume(keep, False):
                        nxt.append(s3.with_store(y))
                    for y in s3.store.assume(keep, True):
                        for s4, f, r in pred(s3.with_store(y), x):
                            hits += [(s4.with_store(z), const(i), r) for z in s4.store.assume(f, True)]
                            nxt += [s4.with_store(z) for z in s4.store.assume(f, False)]
            cur = nxt
        return hits, cur
    for s, n in split_empty(c, q):
        if n is ZERO:
            miss.append(s)
            continue
        np = len(E.panics)
        n, kv, base, cs = generic(c, s, q, lambda s2, x: [(s3, (f, r)) for s3, f, r in pred(s2, x)])
        del E.panics[np:]
        stop = [band(f, keep, v[0]) for f, keep, s3, v in cs if band(f, keep, v[0]) is not FALSE]
        if stop:
            stop = closed.simplify_or(None, stop)
            N = P(loops.first_k(kv, stop))
            lim = closed.reached(s.store, stop, kv, N)
            if lim.bounds(N - n).hi()[0] >= 0:
                # not certain to be found
                N = P(loops.first_k(kv, closed.simplify_or(None, [stop, cmp(">=", P(kv) - n, True)])))
                lim = s.store.refine(N - n, drange(None, 0))
                if lim is None:
                    continue
        else:
            N, lim = n, s.store
        # panics of an iteration that is reached: k <= N, k < n
        kk = loops.fresh()
        pb = lim.refine(P(kk) - N, drange(None, 0))
        pb = pb.refine(P(kk) - n, drange(None, -1)) if pb is not None else None
        if pb is not None:
            for s2, keep, x in stream(c, s.with_store(pb), q, P(kk)):
                for y in s2.store.assume(keep, True):
                    pred(s2.with_store(y), x)
        np = len(E.panics)
        m = lim.refine(N - n, drange(0, None))
        if m is not None:
            miss.append(s.with_store(m))
        h = lim.refine(N - n, drange(None, -1))
        if h is not None:
            for s2, keep, x in stream(c, s.with_store(h), q, N):
                for y in s2.store.assume(keep, True):
                    for s3, f, r in pred(s2.with_store(y), x):
                        hits += [(s3.with_store(z), N, r) for z in s3.store.assume(f, True)]
        del E.panics[np:]
    return hits, miss


def closure_pred(c, byref):
    E = c.E

    def pred(s, x):
        if byref:
            s = s.copy()
            E.fid += 1
            cell = ("B", E.fid)
            s.mem[cell] = x
            arg = Ref(cell)
        else:
            arg = x
        return [(s2, E.as_bool(b), x) for s2, b in E.apply(s, c.args[1], [arg], ("bool",), c.depth + 1, c.site)]
    return pred


def iter_arg(c):
    """the sequence of an iterator taken by value or by mutable reference (its position is then not tracked further)"""
    v = c.args[0]
    if isinstance(v, Ref):
        inner = c.E.read(c.s, v.cell, v.path)
        if isinstance(inner, Agg) and (inner.kind == "it" or (inner.path or "").find("ops::range::Range") >= 0):
            q = as_seq(c, inner)
            s = c.s.copy()
            c.E.write(s, v.cell, v.path, mk("spent"))
            c.s = s
            return q
    return as_seq(c, v)


@std("std::iter::Iterator::any", "std::iter::Iterator::all")
def m_any(c):
    E = c.E
    q = iter_arg(c)
    neg = c.ty[2].endswith("all")
    p = closure_pred(c, False)
    hits, miss = search(c, q, (lambda s, x: [(s2, bnot(f), r) for s2, f, r in p(s, x)]) if neg else p)
    return [(s, FALSE if neg else TRUE) for s, _, _ in hits] + [(s, TRUE if neg else FALSE) for s in miss]


@std("std::iter::Iterator::find", "std::iter::Iterator::position", "std::iter::Iterator::find_map")
def m_find(c):
    E = c.E
    q = iter_arg(c)
    nm = c.ty[2].split("::")[-1]
    if nm == "find_map":
        def pred(s, x):
            out = []
            for s2, o in E.apply(s, c.args[1], [x], ("other", "?"), c.depth + 1, c.site):
                out += [(s3, FALSE if y is None else TRUE, y) for s3, y in split_option(c, s2, o)]
            return out
    else:
        pred = closure_pred(c, nm == "find")
    if nm == "position" and has_filter(q):
        raise Imprecise("position in a filtered sequence")
    hits, miss = search(c, q, pred)
    return [(s, some(i if nm == "position" else r)) for s, i, r in hits] + [(s, NONE) for s in miss]


@std("std::iter::Iterator::last", "std::iter::Iterator::nth")
def m_last(c):
    q = iter_arg(c)
    if has_filter(q):
        raise Imprecise("last of a filtered sequence")
    out = []
    for s, n in split_empty(c, q):
        if n is ZERO:
            out.append((s, NONE))
            continue
        i = n - 1 if c.ty[2].endswith("last") else c.args[1]
        for st in s.store.assume(cmp("<", i - n, True), True):
            out += [(s2, some(x)) for s2, x in seq_get(c, s.with_store(st), q, i)]
        for st in s.store.assume(cmp("<", i - n, True), False):
            out.append((s.with_store(st), NONE))
    return out


class LoopFn:
    """stands for the function around a loop that an iterator method runs"""

    def __init__(self, key, name):
        self.key, self.name = key, name

    def nice(self):
        return self.key


class LoopBody:
    """while let Some(x) = iter.next() { acc = f(acc, x) }: locals 1 the iterator, 2 the accumulator, 3 the item"""
    argc = 3
    ANY = ("other", "?")

    def __init__(self, next_, step, accty):
        self.next, self.step = next_, step
        self.locals = [self.ANY, self.ANY, accty or self.ANY, self.ANY]
        self.names = [None] * 4
        self.blocks = [{"s": [], "t": {"k": "py", "f": self.head, "ts": [1, 2]}}, {"s": [], "t": {"k": "py", "f": self.body, "ts": [0]}}, {"s": [], "t": {"k": "return"}}]
        keep = {1, 2, 3}
        self._cfg = dict(rpo=[0, 1, 2], num={0: 0, 1: 1, 2: 2}, preds={0: [1], 1: [0], 2: [0]}, idom={0: 0, 1: 0, 2: 0},
                         dom=lambda a, b: a == b or a == 0, loops={0: {0, 1}}, live={0: {1, 2}, 1: keep, 2: {2}}, addr={1, 2}, irreducible=False)

    def cfg(self):
        return self._cfg

    def head(self, E, fr, s):
        out = []
        for s2, v in self.next(s, Ref(("L", fr.id, 1), (), True)):
            if v is SKIP:
                out.append((0, s2))
            elif v == NONE:
                out.append((2, s2))
            else:
                s2 = s2.copy()
                s2.mem[("L", fr.id, 3)] = v.fields[0]
                out.append((1, s2))
        return out

    def body(self, E, fr, s):
        out = []
        for s2, v in self.step(s, s.mem[("L", fr.id, 2)], s.mem[("L", fr.id, 3)]):
            s2 = s2.copy()
            s2.mem[("L", fr.id, 2)] = v
            s2.mem.pop(("L", fr.id, 3), None)
            out.append((0, s2))
        return out


def run_loop(c, q, init, step, name, accty=None):
    """[(state, accumulator)] after the loop over a sequence"""
    E = c.E

    def next_(s, r):
        return m_next(Ctx(E, s, [r], c.ty, None, c.depth, c.site))
    fr = Frame(E, LoopFn(c.site or name, name), LoopBody(next_, step, accty), {})
    fr.depth = c.depth
    s = c.s.copy()
    s.mem[("L", fr.id, 1)] = it(q)
    s.mem[("L", fr.id, 2)] = init
    rets, exits, backs = E.region(fr, {0, 1, 2}, None, {0: [s]})
    out = []
    for s in rets:
        v = s.mem[("L", fr.id, 2)]
        s = s.copy()
        for cell in list(s.mem):
            if cell[0] == "L" and cell[1] == fr.id:
                del s.mem[cell]
        out.append((s, v))
    return out


def fold_loop(c, q, init, f):
    E = c.E
    return run_loop(c, q, init, lambda s, acc, x: E.apply(s, f, [acc, x], c.rty, c.depth + 1, c.site), "fold", c.rty)


@std("std::iter::Iterator::for_each")
def m_for_each(c):
    E = c.E
    return run_loop(c, as_seq(c, c.args[0]), UNIT, lambda s, acc, x: [(s2, UNIT) for s2, _ in E.apply(s, c.args[1], [x], ("other", "?"), c.depth + 1, c.site)], "for_each")


@std("std::iter::Iterator::fold")
def m_fold(c):
    E = c.E
    q = as_seq(c, c.args[0])
    init, f = c.args[1], c.args[2]
    k = unroll(c, q)
    if k is not None:
        cur = [(c.s, init)]
        for i in range(k):
            nxt = []
            for s2, acc in cur:
                for s3, keep, x in stream(c, s2, q, const(i)):
                    for y in s3.store.assume(keep, True):
                        nxt += E.apply(s3.with_store(y), f, [acc, x], ("other", "?"), c.depth + 1, c.site)
                    for y in s3.store.assume(keep, False):
                        nxt.append((s3.with_store(y), acc))
            cur = nxt
        return cur
    if not isinstance(init, Poly):
        return fold_loop(c, q, init, f)
    out = []
    for s, n in split_empty(c, q):
        if n is ZERO:
            out.append((s, init))
            continue
        sort = "real" if c.rty[0] == "float" else "int"
        pv = loops.fresh(sort, None)
        n, kv, base, cs = generic(c, s, q, lambda s2, x: E.apply(s2, f, [P(pv), x], ("other", "?"), c.depth + 1, c.site))
        body = choose([(g, loops.ite(keep, v, P(pv)) if keep is not TRUE else v) for g, keep, s3, v in cs])
        out.append((s, loops.iter_k(n, init, kv, pv, body)))
    return out


def wrapped(c, s, x):
    """an integer or the serial number of a date, with the number of references around it"""
    import dates
    E = c.E
    refs = 0
    while isinstance(x, Ref):
        x, refs = E.read(s, x.cell, x.path), refs + 1
    if isinstance(x, Poly):
        return x, False, refs
    if E.date_ty is not None and E.type_of_value(x) == E.date_ty:
        v = dates.serial_of(E, s, x)
        return None if v is None else (P(v), True, refs)
    return None


def least(c, q, n, minimum):
    """smallest or largest element of a sequence of integers (or dates) as a recurrence"""
    import dates
    E = c.E
    out = []
    for s, m in split_empty(c, q):
        if m is ZERO:
            out.append((s, NONE))
            continue
        n, kv, base, cs = generic(c, s, q)
        first = stream(c, s, q, ZERO)
        if len(cs) != 1 or cs[0][1] is not TRUE or len(first) != 1:
            return None
        x, x0 = wrapped(c, cs[0][2], cs[0][3]), wrapped(c, first[0][0], first[0][2])
        if x is None or x0 is None:
            return None
        pv = loops.fresh("int", None)
        d = x[0] - P(pv)
        r = loops.iter_k(n, x0[0], kv, pv, loops.ite(cmp("<" if minimum else ">", d, True), x[0], P(pv)))
        v = dates.D(E.F, r) if x[1] else r
        for i in range(x[2]):
            s = s.copy()
            cell = ("V", mk("call", "least", E.term(s, v), i))
            s.mem[cell] = v
            v = Ref(cell, ())
        out.append((s, some(v)))
    return out


@std("std::iter::Iterator::min", "std::iter::Iterator::max")
def m_itmin(c):
    E = c.E
    q = as_seq(c, c.args[0])
    if has_filter(q):
        raise Imprecise("minimum of a filtered sequence")
    n = seq_len(c, c.s, q)
    if len(c.args) == 1 and not unroll(c, q):
        r = least(c, q, n, c.ty[2].endswith("min"))
        if r is not None:
            return r
    t = mk("call", c.ty[2], mk("seq", q.path, *[E.term(c.s, f) if not (isinstance(f, Agg) and f.kind == "seq") else mk("seq", repr(f)) for f in q.fields]))
    out = []
    for st in c.s.store.assume(cmp("<=", n, True), True):
        out.append((c.s.with_store(st), NONE))
    for st in c.s.store.assume(cmp(">", n, True), True):
        ety = c.rty[2][0]
        out.append((c.s.with_store(st), some(E.value_of(t, ety))))
    return out


@std("std::slice::<impl [T]>::sort_by_key", "std::slice::<impl [T]>::sort", "std::slice::<impl [T]>::sort_by", "std::slice::<impl [T]>::sort_by_cached_key",
     "std::slice::<impl [T]>::sort_unstable", "std::slice::<impl [T]>::sort_unstable_by", "std::slice::<impl [T]>::sort_unstable_by_key")
def m_sort(c):
    E, s = c.E, c.s.copy()
    base = base_ref(c, c.args[0])
    v = E.read(s, base.cell, base.path)
    ety = E.elem_ty(v.ty if isinstance(v, Sym) else E.type_of_value(v))
    ts = mk("sorted", E.term(s, v), "unstable" if "unstable" in c.ty[2] else "stable", sort_key(c, ety))
    E.write(s, base.cell, base.path, Sym(ts, v.ty if isinstance(v, Sym) else E.type_of_value(v)))
    return [(s, UNIT)]


SORTED = mk("var", "sorted element", None, None, sort="any")


def sort_key(c, ety):
    """the key an element is sorted by, as a term over SORTED"""
    E = c.E
    how = c.ty[2].split("::")[-1]

    def elem(s, t):
        return Ref(("S", t, ety))
    if how in ("sort", "sort_unstable"):
        return mk("key", SORTED)
    np = len(E.panics)
    if how.endswith("key"):
        rs = E.apply(c.s.copy(), c.args[1], [elem(c.s, SORTED)], None, c.depth + 1, c.site)
        if len(rs) == 1 and len(E.panics) == np and not closed.delta(rs[0][0].store, c.s.store):
            return mk("key", E.term(rs[0][0], rs[0][1]))
        return mk("key", repr(c.args[1]))
    other = mk("var", "other element", None, None, sort="any")
    rs = E.apply(c.s.copy(), c.args[1], [elem(c.s, SORTED), elem(c.s, other)], None, c.depth + 1, c.site)
    less = [closed.delta(s.store, c.s.store) for s, v in rs if isinstance(v, Agg) and v.variant == 0]
    more = [closed.delta(s.store, c.s.store) for s, v in rs if isinstance(v, Agg) and v.variant == 2]
    if len(less) == 1 and len(more) == 1 and len(E.panics) == np and less[0] is not None and more[0] is not None and len(less[0]) == 1 and len(more[0]) == 1:
        f, g = less[0][0], more[0][0]
        flip = lambda x: deep_subst(x, lambda t: other if t is SORTED else SORTED if t is other else None)
        for a in sorted(all_atoms(f), key=lambda a: a.id):
            if a.sort in ("int", "real") and SORTED in all_atoms(a) and other not in all_atoms(a):
                d = P(a) - P(flip(a))
                if f == cmp("<", d, a.sort == "int") and g == cmp(">", d, a.sort == "int"):
                    return mk("key", a)
    return mk("key", repr(c.args[1]))


# ---- more of std that is not analysed from its own MIR ---------------------------------------------------

INTS = ("i8", "i16", "i32", "i64", "isize", "u8", "u16", "u32", "u64", "usize", "i128", "u128")


def intfn(*names):
    def d(f):
        for n in names:
            for t in INTS:
                STD.setdefault("core::num::<impl %s>::%s" % (t, n), f)
        return f
    return d


def floatfn(*names):
    def d(f):
        for n in names:
            for k in ("core", "std"):
                STD.setdefault("%s::f64::<impl f64>::%s" % (k, n), f)
        return f
    return d


for _n, _like in (("abs", "i32"), ("abs_diff", "i32"), ("unsigned_abs", "i32"), ("rem_euclid", "i32"), ("div_euclid", "i32")):
    for _t in INTS:
        STD.setdefault("core::num::<impl %s>::%s" % (_t, _n), STD["core::num::<impl %s>::%s" % (_like, _n)])


def int_range(name):
    """value range of the integer type a method of std belongs to"""
    t = name.split("<impl ")[1].split(">")[0]
    bits = 64 if t.endswith("size") else int(t[1:])
    return (0, 2 ** bits - 1) if t[0] == "u" else (-2 ** (bits - 1), 2 ** (bits - 1) - 1)


def decide(c, f):
    """truth of a condition in this state (splits it otherwise)"""
    t = c.s.store.truth(f)
    if t is None:
        raise NeedAssume(f)
    return t


@intfn("signum")
def m_isignum(c):
    p = deref(c, c.args[0])
    return c.ret(ONE if decide(c, cmp(">", p, True)) else ZERO if decide(c, cmp("==", p, True)) else -ONE)


def m_fsignum(c):
    """of zero the sign is that of the zero: unknown"""
    p = P(c.args[0])
    return c.ret(ONE if decide(c, cmp(">", p, False)) else -ONE if decide(c, cmp("<", p, False)) else P(mk("fsignum", p, sort="real")))


for _p in ("std::f64::<impl f64>::", "core::f64::<impl f64>::"):
    STD[_p + "signum"] = m_fsignum


@intfn("is_positive")
def m_ispos(c):
    return c.ret(cmp(">", deref(c, c.args[0]), True))


@intfn("is_negative")
def m_isneg(c):
    return c.ret(cmp("<", deref(c, c.args[0]), True))


@intfn("is_multiple_of")
def m_multiple(c):
    a, b = c.args
    if decide(c, cmp("==", b, True)):
        return c.ret(cmp("==", a, True))
    return c.ret(cmp("==", iexpr("irem", a, b), True))


@intfn("pow")
def m_ipow(c):
    a, b = c.args
    k = c.s.store.bounds(b).singleton()
    if k is None or k > 12:
        return NotImplemented
    r = ONE
    for _ in range(int(k)):
        r = r * a
    lo, hi = int_range(c.ty[2])
    ok = band(cmp(">=", r - lo, True), cmp("<=", r - hi, True))
    for st in c.s.store.assume(ok, False):
        c.panic("overflow", c.s.with_store(st))
    return [(c.s.with_store(st), r) for st in c.s.store.assume(ok, True)]


ARITH = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b}


@intfn("saturating_add", "saturating_sub", "saturating_mul")
def m_saturating(c):
    r = ARITH[c.ty[2][-3:]](*c.args)
    lo, hi = int_range(c.ty[2])
    return c.ret(const(lo) if decide(c, cmp("<", r - lo, True)) else const(hi) if decide(c, cmp(">", r - hi, True)) else r)


@intfn("checked_add", "checked_sub", "checked_mul")
def m_checked(c):
    r = ARITH[c.ty[2][-3:]](*c.args)
    lo, hi = int_range(c.ty[2])
    ok = band(cmp(">=", r - lo, True), cmp("<=", r - hi, True))
    return c.ret(some(r) if decide(c, ok) else NONE)


@intfn("checked_div", "checked_rem")
def m_checkeddiv(c):
    a, b = c.args
    if decide(c, cmp("==", b, True)):
        return c.ret(NONE)
    lo = int_range(c.ty[2])[0]
    if lo < 0 and not c.s.store.bounds(b).inter(dset((-1,))).empty() and decide(c, band(cmp("==", a - lo, True), cmp("==", b + 1, True))):
        return c.ret(NONE)
    return c.ret(some(iexpr("idiv" if c.ty[2].endswith("div") else "irem", a, b)))


@floatfn("clamp")
@std("std::cmp::Ord::clamp")
def m_clamp(c):
    x, lo, hi = (deref(c, a) for a in c.args)
    if not all(isinstance(a, Poly) for a in (x, lo, hi)):
        return NotImplemented
    if not decide(c, cmp("<=", lo - hi)):
        c.panic("clamp", c.s)
        return []
    return c.ret(lo if decide(c, cmp("<", x - lo)) else hi if decide(c, cmp(">", x - hi)) else x)


@floatfn("mul_add")
def m_muladd(c):
    a, b, d = c.args
    return c.ret(a * b + d)


@floatfn("recip")
def m_recip(c):
    return c.ret(P(c.args[0]).inv())


@floatfn("is_finite")
def m_finite(c):
    return c.ret(TRUE)


@floatfn("is_infinite")
def m_infinite(c):
    return c.ret(FALSE)


@floatfn("is_sign_negative")
def m_signneg(c):
    return c.ret(cmp("<", c.args[0], False))


@floatfn("is_sign_positive")
def m_signpos(c):
    return c.ret(cmp(">=", c.args[0], False))


def join(E, s, v, w, ty):
    """one sequence after another"""
    if isinstance(v, Agg) and isinstance(w, Agg):
        return Agg("vec", None, 0, v.fields + w.fields)
    return Sym(loops.concat_(E.term(s, v), E.term(s, w)), v.ty if isinstance(v, Sym) else w.ty if isinstance(w, Sym) else ty)


@std("std::iter::Extend::extend", "std::vec::Vec::<T, A>::extend_from_slice", "std::vec::Vec::<T, A>::append")
def m_extend(c):
    E = c.E
    r = c.args[0]
    ty = c.ty[3][0] if c.ty[3] and is_vec_ty(c.ty[3][0]) else ("adt", "alloc::vec::Vec", (("other", "?"),))
    how = c.ty[2].split("::")[-1]
    src = c.args[1]
    s = c.s
    if how == "append":
        b = base_ref(c, src)
        more = E.read(s, b.cell, b.path)
        s = s.copy()
        E.write(s, b.cell, b.path, Agg("vec", None, 0, ()))
        pairs = [(s, more)]
    elif how == "extend_from_slice":
        b = base_ref(c, src)
        more = E.read(s, b.cell, b.path)
        pairs = [(s, Agg("vec", None, 0, more.fields) if isinstance(more, Agg) else more)]
    else:
        old = E.read(s, r.cell, r.path)
        if not (isinstance(old, Agg) and old.kind == "vec") and not (isinstance(old, Sym) and is_vec_ty(old.ty)):
            return NotImplemented
        q = as_seq(c, src)
        if q.path == "ref":
            q = seq("cloned", q)
        pairs = m_collect(Ctx(E, s, [it(q)], c.ty, old.ty if isinstance(old, Sym) else ty, c.depth, c.site))
    out = []
    for s2, w in pairs:
        s2 = s2.copy()
        E.write(s2, r.cell, r.path, join(E, s2, E.read(s2, r.cell, r.path), w, ty))
        out.append((s2, UNIT))
    return out


@std("core::slice::<impl [T]>::contains")
def m_scontains(c):
    q = seq("ref", base_ref(c, c.args[0]))

    def pred(s, x):
        out = []
        for s2, b in STD["std::cmp::PartialEq::eq"](Ctx(c.E, s, [x, c.args[1]], c.ty, ("bool",), c.depth, c.site)):
            out.append((s2, c.E.as_bool(b), x))
        return out
    hits, miss = search(c, q, pred)
    return [(s, TRUE) for s, _, _ in hits] + [(s, FALSE) for s in miss]


def whole(c, f):
    """replace a whole sequence behind a mutable reference: f(term, length) -> term"""
    E, s = c.E, c.s.copy()
    r = base_ref(c, c.args[0])
    v = E.read(s, r.cell, r.path)
    E.write(s, r.cell, r.path, f(s, v))
    return [(s, UNIT)]


@std("core::slice::<impl [T]>::reverse")
def m_reverse(c):
    def f(s, v):
        if isinstance(v, Agg):
            return Agg(v.kind, v.path, v.variant, tuple(reversed(v.fields)))
        n = c.E.length(s, v)
        k = loops.fresh()
        return Sym(loops.mapvec_k(n, k, c.E.term(s, c.E.index(s, v, n - 1 - P(k)))), v.ty)
    return whole(c, f)


@std("core::slice::<impl [T]>::swap")
def m_sswap(c):
    E, s = c.E, c.s.copy()
    r = base_ref(c, c.args[0])
    v = E.read(s, r.cell, r.path)
    n = E.length(s, v)
    i, j = c.args[1], c.args[2]
    ok = band(cmp("<", i - n, True), cmp("<", j - n, True))
    for st in s.store.assume(ok, False):
        c.panic("bounds", s.with_store(st))
    out = []
    for st in s.store.assume(ok, True):
        s2 = s.with_store(st).copy()
        x, y = E.read(s2, r.cell, r.path + (("i", i),)), E.read(s2, r.cell, r.path + (("i", j),))
        E.write(s2, r.cell, r.path + (("i", i),), y)
        E.write(s2, r.cell, r.path + (("i", j),), x)
        out.append((s2, UNIT))
    return out


@std("std::vec::Vec::<T, A>::truncate")
def m_truncate(c):
    E = c.E
    r = base_ref(c, c.args[0])
    v = E.read(c.s, r.cell, r.path)
    n, m = E.length(c.s, v), c.args[1]
    if decide(c, cmp(">=", m - n, True)):
        return c.ret(UNIT)
    k = c.s.store.bounds(m).singleton()

    def f(s, v):
        if isinstance(v, Agg):
            if k is None:
                raise Imprecise("truncate")
            return Agg(v.kind, v.path, v.variant, v.fields[:int(k)])
        return Sym(closed.seq_slice(E.term(s, v), ZERO, m), v.ty)
    return whole(c, f)


def cut(c, s, v, lo, hi):
    """v[lo..hi] as an owned sequence"""
    E = c.E
    if isinstance(v, Agg):
        a, b = s.store.bounds(lo).singleton(), s.store.bounds(hi).singleton()
        if a is None or b is None:
            raise Imprecise("part of a list")
        return Agg(v.kind, v.path, v.variant, v.fields[int(a):int(b)])
    return Sym(closed.seq_slice(E.term(s, v), lo, hi), v.ty)


@std("std::vec::Vec::<T, A>::drain", "std::vec::Vec::<T, A>::split_off")
def m_drain(c):
    E = c.E
    r = base_ref(c, c.args[0])
    v = E.read(c.s, r.cell, r.path)
    n = E.length(c.s, v)
    drain = c.ty[2].endswith("drain")
    if drain:
        if not isinstance(c.args[1], Agg):
            return NotImplemented
        lo, hi = range_ends(c.args[1], n)
    else:
        lo, hi = c.args[1], n
    bad = bor(cmp(">", lo - hi, True), cmp(">", hi - n, True))
    for st in c.s.store.assume(bad, True):
        c.panic("bounds", c.s.with_store(st))
    out = []
    for st in c.s.store.assume(bad, False):
        s = c.s.with_store(st).copy()
        part = cut(c, s, v, lo, hi)
        if isinstance(v, Agg):
            rest = Agg(v.kind, v.path, v.variant, cut(c, s, v, ZERO, lo).fields + cut(c, s, v, hi, n).fields)
        else:
            rest = Sym(closed.seq_concat(closed.seq_slice(E.term(s, v), ZERO, lo), closed.seq_slice(E.term(s, v), hi, n)), v.ty)
        E.write(s, r.cell, r.path, rest)
        out.append((s, it(seq("own", part)) if drain else part))
    return out


@std("core::slice::<impl [T]>::split_first", "core::slice::<impl [T]>::split_last")
def m_split_first(c):
    E = c.E
    r = base_ref(c, c.args[0])
    v = E.read(c.s, r.cell, r.path)
    n = E.length(c.s, v)
    last = c.ty[2].endswith("last")
    out = []
    for st in c.s.store.assume(cmp("<=", n, True), True):
        out.append((c.s.with_store(st), NONE))
    for st in c.s.store.assume(cmp(">", n, True), True):
        s2 = c.s.with_store(st).copy()
        rest = slice_value(c, s2, v, ZERO if last else ONE, n - 1 if last else n)
        out.append((s2, some(tup(Ref(r.cell, r.path + (("i", n - 1 if last else ZERO),)), rest))))
    return out


@std("core::slice::<impl [T]>::split_at")
def m_split_at(c):
    E = c.E
    r = base_ref(c, c.args[0])
    v = E.read(c.s, r.cell, r.path)
    n, m = E.length(c.s, v), c.args[1]
    for st in c.s.store.assume(cmp(">", m - n, True), True):
        c.panic("split", c.s.with_store(st))
    out = []
    for st in c.s.store.assume(cmp("<=", m - n, True), True):
        s2 = c.s.with_store(st).copy()
        out.append((s2, tup(slice_value(c, s2, v, ZERO, m), slice_value(c, s2, v, m, n))))
    return out


@std("std::iter::Iterator::take_while", "std::iter::Iterator::skip_while")
def m_while(c):
    """sequences up to (from) the first item that fails; the predicate has no effects (search sees to that)"""
    q = as_seq(c, c.args[0])
    if has_filter(q):
        raise Imprecise("prefix of a filtered sequence")
    p = closure_pred(c, True)
    take = c.ty[2].endswith("take_while")
    hits, miss = search(c, q, lambda s, x: [(s2, bnot(f), r) for s2, f, r in p(s, x)])
    out = [(s, it(seq("take", q, i)) if take else it(q, i)) for s, i, _ in hits]
    return out + [(s, it(q) if take else it(q, seq_len(c, s, q))) for s in miss]


@std("std::iter::once")
def m_once(c):
    return c.ret(it(seq("own", Agg("vec", None, 0, (c.args[0],)))))


@std("std::iter::empty")
def m_empty(c):
    return c.ret(it(seq("own", Agg("vec", None, 0, ()))))


@std("std::iter::Iterator::rposition")
def m_rposition(c):
    q = iter_arg(c)
    if has_filter(q):
        raise Imprecise("position in a filtered sequence")
    hits, miss = search(c, seq("rev", q), closure_pred(c, False))
    return [(s, some(seq_len(c, s, q) - 1 - i)) for s, i, r in hits] + [(s, NONE) for s in miss]


@std("core::slice::<impl [T]>::partition_point")
def m_partition_point(c):
    """of a sorted sequence: the first item that fails the predicate"""
    q = as_seq(c, c.args[0])
    p = closure_pred(c, False)
    hits, miss = search(c, q, lambda s, x: [(s2, bnot(f), r) for s2, f, r in p(s, x)])
    return [(s, i) for s, i, r in hits] + [(s, seq_len(c, s, q)) for s in miss]


@std("std::iter::DoubleEndedIterator::rfind")
def m_rfind(c):
    q = iter_arg(c)
    hits, miss = search(c, seq("rev", q), closure_pred(c, True))
    return [(s, some(r)) for s, i, r in hits] + [(s, NONE) for s in miss]
