"""Actual/Actual (ISMA), with and without a schedule"""
from run import *
from dates import *
from dates_core import ref, TRUST, date_axioms
from cashflows import quiet
from schedules import Sched, seq_of, DEFAULT
from loops import ite, ind, first_, iter_, sum_, concat_, mapvec_
import models

BEYOND = ("date-range", "overflow")


def inner(F, name):
    """type of the day counter a constructor of ActualActual makes"""
    fn = [f for f in F.find(name) if f.self_ty == F.adt_ty("ActualActual") and not f.trait]
    t = fn[0].body.locals[0] if len(fn) == 1 else None
    if t is None or t[0] != "adt":
        raise mir.Missing("ActualActual::%s" % name)
    return fn[0], t


def of_type(F, name, ty):
    fs = [f for f in F.find(name) if f.self_ty == ty and not f.trait]
    if len(fs) != 1:
        raise mir.Missing("%s of %s" % (name, ty[1]))
    return fs[0]


def rounded(p):
    return P(mk("trunc", P(mk("fround", P(p), sort="real")), -2 ** 31, 2 ** 31 - 1, sort="int"))


def months_between(a, b):
    return rounded((P(b) - P(a)).scale(Fraction(12, 365)))


@check("Y06")
def y06(ck):
    """Actual/Actual (ISMA) without schedule"""
    F = ck.F
    ck.explanation = ("MIR abstract interpretation of the reference-period day counter for arbitrary dates and reference periods against its recursive definition (calls for partial periods stay calls of the same function); the loop over whole periods becomes a search")
    ck.assumptions = ["dates leaving the supported range may be rejected", "the recursion ends: shorter intervals"] + TRUST
    ctor, ty = inner(F, "actual_actual_old_isma")
    fn = of_type(F, "year_fraction", ty)
    E = ck.engine(opaque={fn.key})
    E.date_facts = True
    st = State()
    a, b, c, d = (var(x, "int", MIN_SERIAL, MAX_SERIAL) for x in "abcd")
    me = ref(E, st, E.sym("me", ty))
    args = [me] + [ref(E, st, D(F, x)) for x in (a, b, c, d)]

    def again(q, *xs):
        return P(E.opaque_call(q.st, fn.key, [me] + [ref(E, q.st, D(F, x)) for x in xs], ("float", 64))[0][1])

    def want(q):
        if q.eq(a, b):
            return ZERO
        if q.gt(a, b):
            return -again(q, b, a, c, d)
        start = a if q.eq(c, DEFAULT) else c
        end = b if q.eq(d, DEFAULT) else d
        if q.le(end, start) or q.le(end, a):
            return PANIC
        m = months_between(start, end)
        if q.eq(m, 0):
            start, end, m = a, addm(a, 12), const(12)
            if q.lt(end, MIN_SERIAL) or q.gt(end, MAX_SERIAL):
                return PANIC
        part = m.scale(Fraction(1, 12))
        if q.le(b, end):
            if q.ge(a, start):
                return part * (P(b) - P(a)) * models.rpow(P(end) - P(start), -1)
            before = addm(start, -m)
            if q.gt(b, start):
                return again(q, a, start, before, start) + again(q, start, b, start, end)
            return again(q, a, b, before, start)
        if q.gt(start, a):
            return PANIC
        i = P(first_(lambda k: cmp("<", P(b) - addm(end, m + m * k), True)))
        x, y = addm(end, m * i), addm(end, m + m * i)
        return again(q, a, end, start, end) + part * i + again(q, x, b, x, y)
    ck.verify("isma", fn, args, want, E, st, allow_panic=lambda p: p.kind in BEYOND)
    ck.count("day_counters")
    # reversed dates
    for name, ctor in [(n, inner(F, n)) for n in ("actual_actual_isma",)]:
        f = of_type(F, "year_fraction", ctor[1])
        reversed_(ck, f, ctor[1])
    t = [x[2][0][1] for x in F.adt("ActualActualConvention")["vs"] if x[0] == "AFB"]
    for ty in t:
        reversed_(ck, of_type(F, "year_fraction", ty), ty)


def reversed_(ck, fn, ty):
    E = ck.engine(opaque={fn.key})
    st = State()
    a, b, c, d = (var(x, "int", MIN_SERIAL, MAX_SERIAL) for x in "abcd")
    me = ref(E, st, E.sym("me", ty))
    st.store = st.store.refine(P(a) - P(b), drange(0, None))
    args = [me] + [ref(E, st, D(ck.F, x)) for x in (a, b, c, d)]
    again = lambda q: P(E.opaque_call(q.st, fn.key, [me] + [ref(E, q.st, D(ck.F, x)) for x in (b, a, c, d)], ("float", 64))[0][1])
    ck.verify("reversed:" + ty[1].rsplit("::", 1)[-1], fn, args, lambda q: ZERO if q.eq(a, b) else -again(q), E, st)
    ck.count("day_counters")


@check("Y05")
def y05(ck):
    """Actual/Actual (ISMA) with a schedule"""
    F = ck.F
    ck.explanation = ("MIR abstract interpretation of the schedule-based day counter for a schedule of any length: the list of (quasi-)coupon dates for every combination of irregular first and last periods, and the sum over that list "
                      "(arbitrary here) of the fractions of the periods that intersect the interval")
    ck.assumptions = ["one regularity flag per period: S04", "dates leaving the supported range may be rejected", "schedules of at most 2^30 dates"] + TRUST
    ctor, ty = inner(F, "actual_actual_isma")
    adv, of = F.one("advance_by_period", "Calendar"), of_type(F, "year_fraction", ty)
    lists = [f for f in F.fns.values() if f.self_ty == ty and not f.trait and not f.is_closure and f.body.argc == 1 and f.body.locals[0][0] == "adt" and f.body.locals[0][1].endswith("::Vec")]
    ck.ob("list", len(lists) == 1, "no list of coupon dates among the methods of %s" % ty[1], of.nice())
    if len(lists) != 1:
        return
    fn = lists[0]
    neg = [f for f in F.find("neg") if f.self_ty == F.adt_ty("Period")][0]
    for regular in (True, False):
        E = ck.engine(opaque={adv.key})
        E.date_facts = True
        st = State()
        before = st.store
        S = Sched(ck, E, st, 2)
        if not regular:
            st.store = before.refine(P(mk("len", S.flags, sort="int")), dconst(0))
        st.store = st.store.refine(S.n, drange(2, 2 ** 30))
        made = quiet(E, ctor, [S.v], st)
        ck.ob("constructor", len(made) == 1, "%s has %d results" % (ctor.nice(), len(made)), ctor.nice())
        st = made[0].state
        me = ref(E, st, made[0].value)
        tenor, conv, eom = (S.get(st, S.me, m) for m in ("tenor", "business_day_convention", "end_of_month"))
        cal = [r for r in quiet(E, F.one("calendar", "Schedule"), [S.me], st)][0].value
        names = [f[0] for f in F.adt("Period")["vs"][0][2]]
        st.store = st.store.refine(E.proj_field(tenor, None, names.index("length"), st), drange(-2 ** 31 + 1, None))

        def step(q, x, back):
            t = quiet(E, neg, [tenor], q.st)[0].value if back else tenor
            return E.opaque_call(q.st, adv.key, [cal, x, t, conv, eom], F.adt_ty("Date"))[0][1]
        own = lambda k: E.value_of(mk("elem", S.dates, P(k)), F.adt_ty("Date"))
        num = lambda q, x: P(serial_of(E, q.st, x))

        def flag(q, k):
            return regular and q(E.term(q.st, E.value_of(mk("elem", S.flags, P(k)), ("bool",))))

        def want(q):
            head, tail, lo, hi = [], [], ZERO, S.n
            if not flag(q, ZERO):
                x = step(q, own(1), True)
                head, lo = [x], ONE
                if q.gt(num(q, x), num(q, own(0))):
                    head = [step(q, x, True), x]
            if not flag(q, S.n - 2):
                x = step(q, own(S.n - 2), False)
                tail, hi = [x], S.n - 1
                if q.lt(num(q, x), num(q, own(S.n - 1))):
                    tail.append(step(q, x, False))
            t = lambda xs: mk("vecof", *[E.term(q.st, x) for x in xs])
            return concat_(concat_(t(head), mapvec_(hi - lo, lambda k: mk("elem", S.dates, P(k) + lo))), t(tail))
        E.panics = []
        ck.verify("dates:%s" % ("flags" if regular else "no flags"), fn, [me], want, E, st, value=lambda E_, s, v: seq_of(E_, s, v), allow_panic=lambda p: p.kind in BEYOND)
        ck.count("lists")
    # the year fraction over an arbitrary list of dates
    helpers = [f for f in F.fns.values() if f.self_ty == ty and not f.trait and not f.is_closure and f.body.argc == 5 and f.body.locals[0] == ("float", 64) and f is not of]
    E = ck.engine(opaque={adv.key, fn.key} | {f.key for f in helpers[:1]})
    E.date_facts = True
    st = State()
    a, b = (var(x, "int", MIN_SERIAL, MAX_SERIAL) for x in "ab")
    me = ref(E, st, E.sym("me", ty))
    st.store = st.store.refine(P(a) - P(b), drange(None, 0))
    L = E.opaque_call(st, fn.key, [me], fn.body.locals[0])[0][1]
    L = seq_of(E, st, L)
    n = P(mk("len", L, sort="int"))
    st.store = st.store.refine(n, drange(0, 2 ** 30))
    x = lambda k: P(mk("serial", mk("elem", L, P(k)), sort="int"))

    def part(q, d1, d2, lo, hi):
        """of the days from d1 to d2 in the period from lo to hi"""
        whole, days = P(hi) - P(lo), P(d2) - P(d1)
        short = cmp("<", whole - 16, True)
        per = rounded(models.rpow(months_between(lo, hi), -1).scale(12))
        if q is None:
            return ite(short, days * models.rpow(addm(d1, 12) - P(d1), -1), days * models.rpow(whole * per, -1))
        if q.lt(days, 0):
            return PANIC
        return days * models.rpow(addm(d1, 12) - P(d1), -1) if q(short) else days * models.rpow(whole * per, -1)

    def fraction(k):
        """of period k"""
        lo, hi = x(k), x(P(k) + 1)
        el = lambda k: E.value_of(mk("elem", L, P(k)), F.adt_ty("Date"))

        def f(d1, d2):
            if not helpers:
                return part(None, *[serial_of(E, st, z) for z in (d1, d2)], lo, hi)
            return P(E.opaque_call(st, helpers[0].key, [me, d1, d2, el(k), el(P(k) + 1)], ("float", 64))[0][1])
        from_, to = cmp(">", lo - a, True), cmp("<", hi - b, True)
        parts = ite(from_, ite(to, f(el(k), el(P(k) + 1)), f(el(k), D(F, b))), ite(to, f(D(F, a), el(P(k) + 1)), f(D(F, a), D(F, b))))
        return ite(band(cmp("<", P(a) - hi, True), cmp(">", P(b) - lo, True)), parts, ZERO)

    def want(q):
        if q.eq(a, b):
            return ZERO
        if q.eq(n, 0):
            return PANIC
        first = iter_(n, x(0), lambda k, p: ite(cmp("<", x(k) - p, True), x(k), p), "int")
        last = iter_(n, x(0), lambda k, p: ite(cmp(">", x(k) - p, True), x(k), p), "int")
        if q.lt(a, first) or q.gt(b, last):
            return PANIC
        return P(sum_(n - 1, fraction))
    if helpers:
        E2 = ck.engine()
        E2.date_facts = True
        s2 = State()
        w = [var(z, "int", MIN_SERIAL, MAX_SERIAL) for z in "abcd"]
        ck.verify("period", helpers[0], [ref(E2, s2, E2.sym("me", ty))] + [ref(E2, s2, D(F, z)) for z in w], lambda q: part(q, *w), E2, s2, allow_panic=lambda p: p.kind in BEYOND)
    E.panics = []
    ck.verify("fraction", of, [me, ref(E, st, D(F, a)), ref(E, st, D(F, b)), ref(E, st, D(F, a)), ref(E, st, D(F, b))], want, E, st, allow_panic=lambda p: p.kind in BEYOND)
    ck.count("day_counters")
