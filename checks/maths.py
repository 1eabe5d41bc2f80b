"""Mathematics: arrays, comparison, rounding, bounds, interpolation"""
from run import *
from dates import *
from dates_core import ref, TRUST
from models import fexp, fln, rpow, fabs
from loops import ite, ind, sum_, iter_, first_, concat_, mapvec_, prod_
from rates import variant
from cashflows import quiet, method, methods, provided
from bonds import fields

REAL = ("float", 64)


def seq(E, name, F, fn, i):
    """a sequence argument of any length: (value, term, length, element)"""
    v = E.sym(name, fn.body.locals[i])
    t = v.t
    return v, t


def elem(E, t, k):
    return P(E.value_of(mk("elem", t, P(k)), REAL))


def operators(F, ty, trait):
    return [f for f in F.fns.values() if f.self_ty == ty and str(f.trait).split("::")[-1] == trait and not f.is_closure and str(f.trait).startswith(("core::ops", "std::ops"))]


@check("M03")
def m03(ck):
    """arrays"""
    F = ck.F
    ck.explanation = ("MIR abstract interpretation of every operator and function of Array on arrays of arbitrary length and content; results are compared, element by element at an arbitrary index, with the definition; "
                      "operands of different length are shown to be rejected")
    ck.assumptions = ["real arithmetic for f64; sqrt, ln, exp, powf uninterpreted"] + TRUST
    ty = F.adt_ty("Array")

    def array(E, st, name):
        v = E.sym(name, ty)
        d = E.term(st, E.proj_field(v, None, 0, st))
        return v, (lambda k: elem(E, d, k)), P(mk("len", d, sort="int"))

    def contents(E, s, v):
        if isinstance(v, Ref):
            v = E.read(s, v.cell, v.path)
        return Sym(E.term(s, E.proj_field(v, None, 0, s)), ("other", "vec"))
    ops = {"Add": lambda x, y: x + y, "Sub": lambda x, y: x - y, "Mul": lambda x, y: x * y, "Div": lambda x, y: x * P(y).inv()}
    for o, f in sorted(ops.items()):
        for scalar in (False, True):
            fns = [x for x in operators(F, ty, o) if (x.body.locals[2] == REAL) == scalar]
            key = "%s:%s" % (o, "scalar" if scalar else "array")
            if len(fns) != 1:
                ck.ob(key, False, "no operator %s of Array with %s" % (o, "a number" if scalar else "an array"))
                continue
            E = ck.engine()
            st = State()
            a, x, n = array(E, st, "a")
            b, y, m = array(E, st, "b")
            r = P(var("r", "real"))

            def want(q):
                if scalar:
                    return Sym(mapvec_(n, lambda k: f(x(k), r)), ("other", "vec"))
                return Sym(mapvec_(n, lambda k: f(x(k), y(k))), ("other", "vec")) if q.eq(n, m) else PANIC
            ck.verify(key, fns[0], [a, r if scalar else b], want, E, st, value=contents)
            ck.count("functions")
    e = var("e", "real")
    maps = {"neg": lambda x: -x, "abs": lambda x: fabs(E, st, x), "sqrt": lambda x: P(mk("sqrt", x, sort="real")), "log": fln, "exp": fexp, "pow": lambda x: rpow(x, P(e))}
    for m, f in sorted(maps.items()):
        fn = F.one(m, "Array") if m != "neg" else operators(F, ty, "Neg")[0]
        E = ck.engine()
        st = State()
        a, x, n = array(E, st, "a")
        arg = a if m == "neg" else ref(E, st, a)
        ck.verify(m, fn, [arg] + ([P(e)] if m == "pow" else []), lambda q: Sym(mapvec_(n, lambda k: f(x(k))), ("other", "vec")), E, st, value=contents)
        ck.count("functions")
    E = ck.engine()
    st = State()
    a, x, n = array(E, st, "a")
    b, y, m = array(E, st, "b")
    ra, rb = ref(E, st, a), ref(E, st, b)
    ck.verify("size", F.one("size", "Array"), [ra], lambda q: n, E, st)
    ck.verify("empty", F.one("empty", "Array"), [ra], lambda q: cmp("==", n, True), E, st)
    ck.verify("dot_product", F.one("dot_product", "Array"), [ra, rb], lambda q: sum_(n, lambda k: x(k) * y(k)) if q.eq(n, m) else PANIC, E, st)
    E.panics = []
    ck.verify("norm2", F.one("norm2", "Array"), [ra], lambda q: P(mk("sqrt", sum_(n, lambda k: x(k) * x(k)), sort="real")), E, st)
    i = P(var("i", "int", 0, 2 ** 63 - 1))
    for name, tr in (("index", "Index"), ("index_mut", "IndexMut")):
        fn = operators(F, ty, tr)
        E.panics = []
        ck.verify(name, fn[0], [ra, i], lambda q: x(i) if q.lt(i, n) else PANIC, E, st, value=lambda E_, s, v: E_.read(s, v.cell, v.path))
    E.panics = []
    rs = ck.run(E, F.one("swap", "Array"), [ra, rb], st, key="swap")
    for r in rs or ():
        for p, o in ((ra, b), (rb, a)):
            now = E.read(r.state, p.cell, p.path)
            ck.ob("swap", val_eq(E, r.state, contents(E, r.state, now), contents(E, st, o)), "Array::swap leaves %s" % render(E, r.state, now), "Array::swap")
    ck.floor("functions", ck.counts.get("functions", 0), 14)


@check("M04")
def m04(ck):
    """closeness and rounding"""
    F = ck.F
    ck.explanation = ("MIR abstract interpretation of the comparison functions for all pairs of numbers and every tolerance multiple, and of Rounding::round for every rule, precision and digit and all numbers; compared with the "
                      "documented definitions as formulas over real numbers")
    ck.assumptions = ["real arithmetic for f64 (no NaN, no infinities)"] + TRUST
    x, y = P(var("x", "real")), P(var("y", "real"))
    n = P(var("n", "int", 0, 2 ** 53))
    eps = Fraction(1, 2 ** 52)
    for name, both, tol in (("close", True, const(42 * eps)), ("close_n", True, n.scale(eps)), ("close_enough", False, const(42 * eps))):
        E = ck.engine()
        st = State()

        def want(q):
            ax, ay, d = (fabs(E, st, v) for v in (x, y, x - y))
            if q.eq(x, y):
                return TRUE
            if q.eq(x, 0) or q.eq(y, 0):
                return cmp("<", d - tol * tol, False)
            a, b = cmp("<=", d - tol * ax, False), cmp("<=", d - tol * ay, False)
            return band(a, b) if both else bor(a, b)
        ck.verify(name, F.one(name), [x, y] + ([n] if name == "close_n" else []), want, E, st)
    p, g = P(var("p", "int", -300, 300)), P(var("g", "int", -2 ** 31, 2 ** 31 - 1))
    fn = F.one("round", "Rounding")
    for rule in ("none", "up", "down", "closest", "ceiling", "floor"):
        E = ck.engine()
        st = State()
        mk_ = F.one(rule, "Rounding")
        rs = ck.run(E, mk_, [] if rule == "none" else [p, g], st, key=rule)
        if not rs or len(rs) != 1:
            ck.ob(rule, False, "Rounding::%s has %d results" % (rule, len(rs or ())))
            continue
        s = rs[0].state

        def want(q):
            if rule == "none":
                return x
            m = rpow(const(10), p)
            neg = q.lt(x, 0)
            v = (-x if neg else x) * m
            t = P(mk("ftrunc", v, sort="real"))
            up = {"up": cmp("!=", v - t, False), "down": FALSE}.get(rule)
            if up is None:
                up = cmp(">=", v - t - g.scale(Fraction(1, 10)), False)
                if rule == "ceiling" and not neg or rule == "floor" and neg:
                    up = FALSE
            r = (t + ind(up)) * m.inv()
            return -r if neg else r
        ck.verify("round:" + rule, fn, [ref(E, s, rs[0].value), x], want, E, s)
        ck.count("rules")
    ck.floor("rules", ck.counts.get("rules", 0), 6)


@check("M05")
def m05(ck):
    """bounds"""
    F = ck.F
    ck.explanation = "MIR abstract interpretation of lower_bound and upper_bound on slices of any length: the result is the first index whose element is not less (greater) than the value, the length when there is none"
    ck.assumptions = TRUST
    x = P(var("x", "real"))
    for name, rel in (("lower_bound", ">="), ("upper_bound", ">")):
        fn = [f for f in F.find(name, mod="maths::bounds") if f.self_ty is None][0]
        E = ck.engine()
        st = State()
        v = E.sym("xs", ("slice", REAL))
        n = P(mk("len", v.t, sort="int"))
        ck.verify(name, fn, [ref(E, st, v), x], lambda q: P(first_(lambda k: bor(cmp(">=", k - n, True), cmp(rel, elem(E, v.t, k) - x, False)))), E, st, subst={"T": REAL})
        ck.count("functions")
    ck.floor("functions", ck.counts.get("functions", 0), 2)


@check("M02")
def m02(ck):
    """linear interpolation"""
    F = ck.F
    ck.explanation = ("MIR abstract interpretation of LinearInterpolation::new on any number of points and of every query on the interpolation it returns, at an arbitrary argument; the loop that fills the tables is replaced by a closed "
                      "form, checked against its body; results are compared with the chord through the two points around the argument, its slope and the integral along the chords")
    ck.assumptions = ["strictly increasing abscissas, as many ordinates, two points or more", "close: M04", "real arithmetic for f64"] + TRUST
    close = F.one("close")
    E = ck.engine(opaque={close.key})
    E.provided = provided(F)
    st = State()
    new = F.one("new", "LinearInterpolation")
    xs, ys = (E.sym(m, ("slice", REAL)) for m in ("xs", "ys"))
    n = P(mk("len", xs.t, sort="int"))
    X, Y = (lambda k: elem(E, xs.t, k)), (lambda k: elem(E, ys0, k))
    st.store = st.store.refine(n, drange(2, 2 ** 60))
    ys0 = ys.t
    ys = Sym(mapvec_(n, lambda k: elem(E, ys0, k)), ys.ty)
    x = P(var("x", "real"))
    ext = cmp("==", var("ext", "int", 0, 1), True)
    dx = lambda k: X(k + 1) - X(k)
    slope = lambda k: (Y(k + 1) - Y(k)) * dx(k).inv()
    rs = ck.run(E, new, [ref(E, st, xs), ref(E, st, ys)], st, key="new")
    if not rs:
        return
    k0 = P(first_(lambda k: bor(cmp(">=", k - (n - 1), True), cmp(">", X(k) - x, False))))

    def where(q, extrapolate):
        """the segment to use; None where the argument is rejected"""
        if not (q.ge(x, X(ZERO)) and q.le(x, X(n - 1))):
            near = [E.opaque_call(q.st.copy(), close.key, [x, X(k)], ("bool",))[0][1] for k in (ZERO, n - 1)]
            if not q(near[0]) and not q(near[1]) and not q(extrapolate):
                return None
        if q.lt(x, X(ZERO)):
            return ZERO
        if q.gt(x, X(n - 1)):
            return n - 2
        return k0 - 1
    area = lambda k: dx(k) * (Y(k) + Y(k + 1)) * const(Fraction(1, 2))
    what = {
        "value": lambda i: Y(i) + (x - X(i)) * slope(i),
        "derivative": slope,
        "second_derivative": lambda i: ZERO,
        "primitive": lambda i: sum_(i, area) + (x - X(i)) * Y(i) + (x - X(i)) * (x - X(i)) * slope(i) * const(Fraction(1, 2)),
    }
    ty = F.adt_ty("LinearInterpolation")
    for r in rs:
        me = ref(E, r.state, r.value)
        for m, f in sorted(what.items()):
            for plain in (True, False):
                name = m if plain else m + "_with_extrapolation"
                fn, subst, key = method(E, F, r.value.path and ("adt", r.value.path, ()), "Interpolation", name)

                def want(q):
                    i = where(q, FALSE if plain else ext)
                    return PANIC if i is None else f(i)
                E.panics = []
                ck.verify(name, fn, [me, x] + ([] if plain else [ext]), want, E, r.state, subst=subst)
                ck.count("queries")
        for m, v in (("xmin", X(ZERO)), ("xmax", X(n - 1))):
            fn, subst, key = method(E, F, ("adt", r.value.path, ()), "Interpolation", m)
            ck.verify(m, fn, [me], lambda q: v, E, r.state, subst=subst)
    ck.floor("queries", ck.counts.get("queries", 0), 8)


@check("M06")
def m06(ck):
    """Lagrange interpolation"""
    F = ck.F
    ck.explanation = ("MIR abstract interpretation of LagrangeInterpolation::new on any number of points and of the value and derivative of the interpolation it returns at an arbitrary argument; the nested loops are replaced by closed "
                      "forms (products and sums over the points); results are compared with the barycentric formulas, and with the given ordinates at the points themselves")
    ck.assumptions = ["different abscissas in increasing order, as many ordinates, two points or more", "close, close_enough: M04", "real arithmetic for f64"] + TRUST
    close, near = F.one("close"), F.one("close_enough")
    E = ck.engine(opaque={close.key, near.key})
    E.provided = provided(F)
    st = State()
    new = F.one("new", "LagrangeInterpolation")
    xs, ys = (E.sym(m, ("slice", REAL)) for m in ("xs", "ys"))
    n = P(mk("len", xs.t, sort="int"))
    ys0 = ys.t
    X, Y = (lambda k: elem(E, xs.t, k)), (lambda k: elem(E, ys0, k))
    ys = Sym(mapvec_(n, Y), ys.ty)
    st.store = st.store.refine(n, drange(2, 2 ** 60))
    x = P(var("x", "real"))
    ext = cmp("==", var("ext", "int", 0, 1), True)
    rs = ck.run(E, new, [ref(E, st, xs), ref(E, st, ys)], st, key="new")
    c = const(4) * (X(n - 1) - X(ZERO)).inv()
    lam = lambda i: prod_(n, lambda j: ite(cmp("==", j - i, True), ONE, c * (X(i) - X(j)))).inv()
    eps = const(Fraction(10, 2 ** 52)) * P(mk("abs", x, sort="real"))
    below = lambda k: bor(cmp(">=", k - n, True), cmp(">=", X(k) - x + eps, False))

    def rejected(q, extrapolate):
        if q.ge(x, X(ZERO)) and q.le(x, X(n - 1)):
            return False
        at = [E.opaque_call(q.st.copy(), close.key, [x, X(k)], ("bool",))[0][1] for k in (ZERO, n - 1)]
        return not q(at[0]) and not q(at[1]) and not q(extrapolate)

    def value(q):
        lb = ZERO if q(below(ZERO)) else P(first_(below))
        if q.lt(lb, n):
            if q.eq(x, X(lb)) or q.lt(X(lb) - x, eps):
                return Y(lb)
            if q.eq(X(lb) - x, eps):
                return ANY
        return sum_(n, lambda i: lam(i) * Y(i) * (x - X(i)).inv()) * sum_(n, lambda i: lam(i) * (x - X(i)).inv()).inv()

    def derivative(q):
        k0 = P(first_(lambda k: bor(cmp(">=", k - n, True), E.opaque_call(st.copy(), near.key, [x, X(k)], ("bool",))[0][1])))
        if q.lt(k0, n):
            return sum_(n, lambda j: ite(cmp("==", j - k0, True), ZERO, lam(j) * (x - X(j)).inv() * (Y(j) - Y(k0)))) * lam(k0).inv()
        a = lambda i: lam(i) * (x - X(i)).inv()
        b = lambda i: -a(i) * (x - X(i)).inv()
        N, D_, ND, DD = sum_(n, lambda i: a(i) * Y(i)), sum_(n, a), sum_(n, lambda i: b(i) * Y(i)), sum_(n, b)
        return (ND * D_ - N * DD) * (D_ * D_).inv()
    for r in rs or ():
        me = ref(E, r.state, r.value)
        for m, f in (("value", value), ("derivative", derivative)):
            for plain in (True, False):
                name = m if plain else m + "_with_extrapolation"
                fn, subst, key = method(E, F, ("adt", r.value.path, ()), "Interpolation", name)
                E.panics = []
                ck.verify(name, fn, [me, x] + ([] if plain else [ext]), lambda q: PANIC if rejected(q, FALSE if plain else ext) else f(q), E, r.state, subst=subst)
                ck.count("queries")
        for m, v in (("xmin", X(ZERO)), ("xmax", X(n - 1))):
            fn, subst, key = method(E, F, ("adt", r.value.path, ()), "Interpolation", m)
            ck.verify(m, fn, [me], lambda q: v, E, r.state, subst=subst)
    ck.floor("queries", ck.counts.get("queries", 0), 4)
