"""One-dimensional root solvers"""
from run import *
import terms
from dates import *
from dates_core import ref, TRUST
from models import fabs
from loops import ite
from cashflows import quiet, method, methods, provided, implementors

REAL = ("float", 64)
EPS = Fraction(1, 2 ** 52)
TINY = Fraction(441, 2 ** 102)          # (42 eps)^2: what close(x, 0) accepts
DATA = ("root", "xmin", "xmax", "fx_min", "fx_max", "evaluation_number")
BEYOND = ("overflow",)


def slots(F, name):
    return [f[0] if isinstance(f, (tuple, list)) else f["n"] if isinstance(f, dict) else f for f in F.adt(name)["vs"][0][2]]


class Search:
    """a search for a zero of an unknown function by an unknown or a given solver"""

    def __init__(self, ck, fn, self_ty, opaque=()):
        self.ck, self.fn, self.F = ck, fn, ck.F
        terms.HEAVY[0] = 6
        E = self.E = ck.engine(opaque=set(opaque))
        E.merge = False
        E.guard_history = False
        E.closed_forms = False
        self.st = State()
        b = fn.body.locals
        self.me = ref(E, self.st, E.sym("solver", self_ty))
        self.f, self.g = E.sym("f", b[2]), E.sym("g", b[3])
        E.relate = (self.f.t, self.g.t)
        E.on_loop = self.seen
        E.mixed_signs = True
        self.loops = []

    def at(self, x):
        return self.E.applied(self.f.t, P(x))

    def slope(self, x):
        return self.E.applied(self.g.t, P(x))

    def seen(self, E, fr, header, s0, gen, backs, phis):
        if fr.fn.key == self.fn.key:
            self.loops.append((s0.copy(), gen.copy(), [b.copy() for b in backs], dict(phis), list(phis.relations)))

    def data(self, **v):
        return Agg("adt", self.F.adt_ty("SolverData")[1], 0, tuple(v[n] for n in slots(self.F, "SolverData")))

    def field(self, s, v, name):
        return self.E.proj_field(v, None, slots(self.F, "SolverData").index(name), s)

    def ask(self, st, name, own=None):
        """what the solver says about itself"""
        fn, subst, key = method(self.E, self.F, own or ("param", "Self"), "SolverDetail", name)
        if own is None:
            size = self.F.one("max_evaluations", "SolverDetail").body.locals[0]
            return self.E.opaque_call(st, key, [self.me], {"max_evaluations": size}.get(name, ("bool",) if "enforced" in name else REAL))[0][1]
        r = quiet(self.E, fn, [self.me], st)
        if len(r) != 1:
            raise Imprecise("%s has %d results" % (name, len(r)))
        return r[0].value

    def points(self, *xs):
        """arguments at which the function is known"""
        out = []
        for x in xs:
            for a in all_atoms(x) if not isinstance(x, State) else {y for k in x.store.c for y in all_atoms(k)}:
                if a.op == "call" and a.args[0] is self.f.t:
                    p = P(a.args[1])
                    if p not in out:
                        out.append(p)
        return out

    def budget(self, key, limit, loop, over):
        """every iteration counts, and none starts beyond the limit; the search only fails there"""
        s0, gen, backs, phis, rel = loop
        E, ck = self.E, self.ck
        at = lambda s, k: E.read_path(s, s.mem[k[0]], k[1])
        counter = [k for k, x in phis.items() if x[0] == "ind" and x[2].is_const() and x[2].const() >= 1 or x[0] == "phi" and is_int_poly(x[2])]
        good = [k for k in counter if all((lambda d: not d.empty() and d.lo()[0] >= 1)(b.store.bounds(P(at(b, k)) - P(at(gen, k)))) and b.store.bounds(P(at(gen, k)) - limit).hi()[0] <= 0 for b in backs)]
        ck.ob(key + ":limit", bool(good), "%s: no counter limits the number of iterations to the maximum number of evaluations" % self.fn.nice(), self.fn.nice())
        for p in over:
            bad = not any(k[0] in p.state.mem and p.state.store.bounds(P(at(p.state, k)) - limit).lo()[0] >= 0 for k in good)
            ck.ob(key + ":failure", not bad, "%s: gives up (%s) before the maximum number of evaluations, when %s" % (self.fn.nice(), p.kind, describe(p.state, E)), p.where)
        ck.count("loops")
        return good

    def near_zero(self, s, x):
        return less(self.E, s, self.at(x), const(TINY)) or s.store.truth(cmp("==", self.at(x), False)) is True


def less(E, s, x, tol, rel="<"):
    """|x| < tol"""
    flip = {"<": ">", "<=": ">="}[rel]
    return s.store.truth(cmp(rel, fabs(E, s, P(x)) - tol, False)) is True or s.store.truth(cmp(rel, P(x) - tol, False)) is True and s.store.truth(cmp(flip, P(x) + tol, False)) is True


@check("M01")
def m01(ck):
    """bracketing"""
    F = ck.F
    ck.explanation = ("MIR abstract interpretation of the two entry points of the solvers for an unknown function and an unknown solver; the loop that looks for a bracket is summarised by the relations between its variables that every iteration "
                      "preserves (which value is the function at which point), from which the handed-over bracket is shown to be one")
    ck.assumptions = ["real arithmetic for f64", "the function returns the same value for the same argument"] + TRUST
    solve, brk, bound = F.one("solve", "Solver1D"), F.one("solve_bracketed", "Solver1D"), F.one("enforce_bounds", "SolverDetail")
    acc, guess, x0, x1, step = (var(n, "real") for n in ("acc", "guess", "xmin", "xmax", "step"))
    acc, guess, x0, x1, step = P(acc), P(guess), P(x0), P(x1), P(step)

    # clamping
    S = Search(ck, brk, ("param", "Self"))
    E, st = S.E, S.st
    E.relate = ()
    lo, hi, lon, hin = (S.ask(st, n) for n in ("lower_bound", "upper_bound", "lower_bound_enforced", "upper_bound_enforced"))
    x = P(var("x", "real"))
    on = lambda q, c: q(c)
    ck.verify("clamp", bound, [S.me, x], lambda q: lo if on(q, lon) and q.lt(x, lo) else hi if on(q, hin) and q.gt(x, hi) else x, E, st)
    ck.count("entry points")

    # a given bracket
    impl = [m for m in methods(F, "SolverDetail") if m["n"] == "solve_impl"][0]["key"]

    def handed(q, root, xa, xb):
        sd = S.data(root=root, xmin=xa, xmax=xb, fx_min=S.at(xa), fx_max=S.at(xb), evaluation_number=const(2))
        return sd

    calls = []

    def run_impl(E, s, a, site, subst):
        calls.append((s, a))
        return [(s, P(mk("ty", mk("solution", len(calls)), None, None, sort="real")))]

    def given(q):
        if q.le(acc, 0) or q.ge(x0, x1) or on(q, lon) and q.lt(x0, lo) or on(q, hin) and q.gt(x1, hi):
            return PANIC
        if q.lt(S.at(x0), TINY) and q.gt(S.at(x0), -TINY):
            return x0
        if q.lt(S.at(x1), TINY) and q.gt(S.at(x1), -TINY):
            return x1
        if q.ge(S.at(x0) * S.at(x1), 0) or q.le(guess, x0) or q.ge(guess, x1):
            return PANIC
        return Agg("tuple", "", 0, (S.me, S.f, S.g, acc if q.ge(acc, EPS) else const(EPS), handed(q, guess, x0, x1)))

    def hand_over(E, s, a, site, subst):
        return [(s, Agg("tuple", "", 0, (a[0], a[1], a[2], a[3], E.read(s, a[4].cell, a[4].path))))]
    E.overrides[impl] = hand_over
    E.panics = []
    ck.verify("given", brk, [S.me, S.f, S.g, acc, guess, x0, x1], given, E, st)
    ck.count("entry points")

    # a bracket to be found
    S = Search(ck, solve, ("param", "Self"), opaque={bound.key})
    E, st = S.E, S.st
    E.overrides[impl] = run_impl
    st.store = st.store.refine(P(S.ask(st, "max_evaluations")), drange(0, 2 ** 32)) or st.store
    res = ck.run(E, solve, [S.me, S.f, S.g, acc, guess, step], st, key="search")
    if res is None:
        return
    over = [p for p in E.panics if p.kind not in BEYOND]
    early = [p for p in over if p.state.store.truth(cmp("<=", acc, False)) is True]
    for p in E.panics:
        if p.kind in BEYOND:
            ck.ob("search:overflow", False, "%s: a count overflows" % solve.nice(), p.where)
    late = [p for p in over if p not in early]
    for r in res:
        pos = r.state.store.truth(cmp(">", acc, False)) is True
        ck.ob("search:accuracy", pos, "%s: an accuracy that is not positive is accepted, when %s" % (solve.nice(), describe(r.state, E)), solve.nice())
    limit = P(S.ask(st, "max_evaluations"))
    ck.ob("search:loop", len(S.loops) >= 1, "%s: no loop looks for a bracket" % solve.nice(), solve.nice())
    for lp in S.loops:
        S.budget("search", limit, lp, late)
        s0, gen, backs, phis, rel = lp
        at = lambda s, k: E.read_path(s, s.mem[k[0]], k[1])
        ends = sorted({r[2] for r in rel if r[1] is S.f.t and r[2] in phis}, key=repr)
        ck.ob("search:ends", len(ends) == 2, "%s: the loop keeps %d points at which it knows the value of the function; 2 expected" % (solve.nice(), len(ends)), solve.nice())
        if len(ends) != 2:
            continue
        isb = lambda v: v.atom() is not None and v.atom().op == "ty" and v.atom().args[0].op == "call" and v.atom().args[0].args[0] == bound.key
        for k in ends:
            v = P(at(s0, k))
            ck.ob("search:start", isb(v) or s0.store.equal(v, guess), "%s: starts from %s, neither the guess nor a point within the enforced bounds" % (solve.nice(), render(E, s0, v)), solve.nice())
        for b in backs:
            for k, o in (ends, ends[::-1]):
                old, new, other = P(at(gen, k)), P(at(b, k)), P(at(gen, o))
                if b.store.equal(old, new):
                    continue
                ok = isb(new)
                ck.ob("search:bounds", ok, "%s: moves an end of the bracket to %s, not kept within the enforced bounds" % (solve.nice(), render(E, b, new)), solve.nice())
                if ok:
                    # outwards, along the line through both ends
                    d = P(new.atom().args[0].args[2]) - old
                    c = d.d.get(((old.atom(), 1),), 0)
                    ck.ob("search:outwards", c > 0 and b.store.equal(d, (old - other).scale(c)), "%s: moves an end of the bracket by %s, not away from the other end" % (solve.nice(), render(E, b, d)), solve.nice())
                ck.count("moves")
    for s, a in calls:
        sd = E.read(s, a[4].cell, a[4].path)
        root, xa, xb, ya, yb = (P(S.field(s, sd, n)) for n in DATA[:5])
        where = "when " + describe(s, E)
        ck.ob("search:values", s.store.equal(ya, S.at(xa)) and s.store.equal(yb, S.at(xb)), "%s: hands over function values %s and %s for %s and %s, %s" % (solve.nice(), render(E, s, ya), render(E, s, yb), render(E, s, xa), render(E, s, xb), where), solve.nice())
        ck.ob("search:sign", s.store.truth(cmp("<=", ya * yb, False)) is True, "%s: hands over a bracket on which the function may not change sign, %s" % (solve.nice(), where), solve.nice())
        ck.ob("search:root", s.store.equal(root, (xa + xb).scale(Fraction(1, 2))), "%s: starts the solver from %s" % (solve.nice(), render(E, s, root)), solve.nice())
        want = [acc] if s.store.truth(cmp(">=", acc - EPS, False)) is True else [const(EPS)] if s.store.truth(cmp("<", acc - EPS, False)) is True else []
        got = P(a[3])
        ck.ob("search:precision", any(s.store.equal(got, w) for w in want) or all(x_.equal(got, acc) for x_ in s.store.assume(cmp(">=", acc - EPS, False), True)) and all(x_.equal(got, const(EPS)) for x_ in s.store.assume(cmp(">=", acc - EPS, False), False)),
              "%s: asks for accuracy %s" % (solve.nice(), render(E, s, got)), solve.nice())
        ck.ob("search:functions", a[1] == S.f and a[2] == S.g and a[0] == S.me, "%s: hands over another function" % solve.nice(), solve.nice())
        ck.count("hand-overs")
    own = 0
    for r in res:
        v = P(r.value)
        if v.atom() is not None and v.atom().op == "ty" and v.atom().args[0].op == "solution":
            own += 1
            continue
        ck.ob("search:zero", S.near_zero(r.state, v), "%s: returns %s, where the function is not known to be zero, when %s" % (solve.nice(), render(E, r.state, v), describe(r.state, E)), solve.nice())
        ck.count("direct results")
    ck.count("entry points")
    ck.floor("entry points", ck.counts.get("entry points", 0), 3)
    ck.floor("hand-overs", ck.counts.get("hand-overs", 0), 1)
    ck.floor("moves", ck.counts.get("moves", 0), 2)


@check("M07")
def m07(ck):
    """the solvers"""
    F = ck.F
    ck.explanation = ("MIR abstract interpretation of every solver for an unknown function and derivative on an arbitrary bracket; the loop is summarised by the relations its variables keep (value of the function at a point, sign at the ends of "
                      "the bracket) and every returned value must carry a certificate: a sign change within the accuracy, a Newton or secant step shorter than it, or a value of the function that is zero")
    ck.assumptions = ["real arithmetic for f64", "functions return the same value for the same argument", "at most 2^32 evaluations"] + TRUST
    impls = [m for m in F.find("solve_impl") if m.self_ty and m.self_ty[0] == "adt"]
    ck.floor("solvers", len(impls), 3)
    acc, root, x0, x1 = (P(var(n, "real")) for n in ("acc", "root", "xmin", "xmax"))
    for fn in sorted(impls, key=lambda f: f.key):
        name = fn.self_ty[1].split("::")[-1]
        # what the solver was made from
        for new in [f for f in F.find("new") if f.self_ty == fn.self_ty]:
            S = Search(ck, fn, fn.self_ty)
            E, st = S.E, S.st
            a = [E.sym("p%d" % i, new.body.locals[1 + i]) for i in range(new.body.argc)]
            made = quiet(E, new, a, st)
            ck.ob(name + ":made", len(made) == 1, "%s has %d results" % (new.nice(), len(made)), new.nice())
            for r in made:
                S.me = ref(E, r.state, r.value)
                for i, n in enumerate(("lower_bound", "upper_bound", "lower_bound_enforced", "upper_bound_enforced", "max_evaluations")):
                    if i == 4:
                        want = a[4] if len(a) > 4 else const(100)
                    else:
                        want = a[i]
                    m, subst, k = method(E, F, fn.self_ty, "SolverDetail", n)
                    E.panics = []
                    ck.verify("%s:%s" % (name, n), m, [S.me], lambda q: want, E, r.state, subst=subst)
                    ck.count("settings")
        for sign in (-1, 1):
            key = "%s:%s" % (name, "rising" if sign < 0 else "falling")
            S = Search(ck, fn, fn.self_ty)
            E, st = S.E, S.st
            st.store = st.store.refine(P(S.ask(st, "max_evaluations", fn.self_ty)), drange(0, 2 ** 32)) or st.store
            for c in (cmp(">", acc, False), cmp("<", x0 - root, False), cmp("<", root - x1, False), cmp("<", x0 - x1, False), cmp("<" if sign < 0 else ">", S.at(x0), False), cmp(">" if sign < 0 else "<", S.at(x1), False)):
                st.store = st.store.assume(c, True)[0]
            limit = P(S.ask(st, "max_evaluations", fn.self_ty))
            sd = S.data(root=root, xmin=x0, xmax=x1, fx_min=S.at(x0), fx_max=S.at(x1), evaluation_number=const(2))
            res = ck.run(E, fn, [S.me, S.f, S.g, acc, ref(E, st, sd)], st, key=key)
            if res is None:
                continue
            for p in E.panics:
                if p.kind in BEYOND:
                    ck.ob(key + ":overflow", False, "%s: a count overflows" % fn.nice(), p.where)
            ck.ob(key + ":loop", len(S.loops) >= 1, "%s: %d loops, at least one expected" % (fn.nice(), len(S.loops)), fn.nice())
            for lp in S.loops:
                S.budget(key, limit, lp, [p for p in E.panics if p.kind not in BEYOND])
            ck.floor("results of " + key, len(res), 1)
            for r in res:
                s, v = r.state, P(r.value)
                why = certificate(S, s, v, acc)
                ck.ob(key + ":root", why is not None, "%s: returns %s, which is neither known to be a zero nor within the accuracy of one, when %s" % (fn.nice(), render(E, s, v), describe(s, E)), fn.nice())
                if why:
                    ck.count(why)


def certificate(S, s, v, acc):
    pts = S.points(s, v)
    if S.near_zero(s, v):
        return "zeros"
    half = Fraction(1, 2)
    for x in pts:
        d = v - x
        # a Newton step
        if s.store.equal(d * S.slope(x) + S.at(x), ZERO) and less(S.E, s, d, acc):
            return "Newton steps"
    for x in pts:
        for y in pts:
            if s.store.bounds(S.at(x)).hi()[0] <= 0 <= s.store.bounds(S.at(y)).lo()[0] and less(S.E, s, v - x, acc) and less(S.E, s, v - y, acc):
                return "sign changes"
    for x in pts:
        if not S.E.mixed(State({("R", 0): x, ("R", 1): v}, s.store), S.f.t, [(("R", 0), ()), (("R", 1), ())]):
            continue
        tol = fabs(S.E, s, v).scale(2 * EPS) + acc.scale(half)
        if not s.store.equal(x, v) and less(S.E, s, (x - v).scale(half), tol, "<="):
            return "narrow brackets"
    for x in pts:
        d = v - x
        if less(S.E, s, d, acc) and secant(S, s, d, x):
            return "secant steps"
    return None


def secant(S, s, d, x):
    """d is -f(x)/slope, with a slope that is a difference quotient of the function whenever it is carried from one iteration to the next"""
    return any(carried(S, s, d, x, lp) for lp in S.loops)


def carried(S, s, d, x, lp):
    s0, gen, backs, phis, rel = lp
    at = lambda st, k: S.E.read_path(st, st.mem[k[0]], k[1])
    for k, p in phis.items():
        if p[0] != "phi" or is_int_poly(p[2]):
            continue
        if not s.store.equal(d * P(at(gen, k)) + S.at(x), ZERO):
            continue
        here = [r[2] for r in rel if r[1] is S.f.t]

        def quotient(st):
            q = P(at(st, k))
            for h in here:
                b = P(at(st, h))
                for a in S.points(st, q):
                    if not st.store.equal(a, b) and st.store.equal(q * (a - b), S.at(a) - S.at(b)):
                        return True
            return False
        if all(quotient(t) for t in [s0] + backs):
            return True
    return False
