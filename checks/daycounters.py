"""Day counters"""
from run import *
from dates import *
from dates_core import ref, TRUST, date_axioms
from loops import ite, ind, first_, iter_, sum_
from dates import som as E_som

A_, B_ = (lambda: var("a", "int", MIN_SERIAL, MAX_SERIAL)), (lambda: var("b", "int", MIN_SERIAL, MAX_SERIAL))


def setup(ck, **kw):
    E = ck.engine(**kw)
    E.date_facts = True
    st = State()
    for s in (A_(), B_()):
        st.store = date_axioms(st.store, s)
    return E, st


def build(ck, fn, args=()):
    """the day counter a constructor makes: (engine, state, reference)"""
    E, st = setup(ck)
    r = ck.run(E, fn, list(args), st, key=fn.name)
    if r is None or len(r) != 1 or E.panics:
        ck.ob(fn.name + ":construct", False, "%s does not simply build a day counter" % fn.nice())
        return None
    s = r[0].state.copy()
    s.store = st.store
    return E, s, ref(E, s, r[0].value)


def to_counter(ck, v, F):
    """wrap a concrete day counter into DayCounter when it is not one"""
    adt = F.adt("DayCounter")
    for i, (nm, d, fs) in enumerate(adt["vs"]):
        if fs and fs[0][1][0] == "adt" and isinstance(v, (Agg, Sym)) and fs[0][1][1] == (v.path if isinstance(v, Agg) else v.ty[1]):
            return Agg("adt", F.adt_ty("DayCounter")[1], i, (v,))
    return v


class Ymd:
    def __init__(self, s):
        self.s = P(s)
        self.d, self.m, self.y = comp("dom", s), comp("mon", s), comp("yr", s)

    def eom(self, q):
        return q.eq(self.s, eom_t(self.s))

    def lastfeb(self, q):
        return q.eq(self.m, 2) and self.eom(q)


def thirty(q, x, y, d1, d2, mshift=0):
    return (y.y - x.y).scale(360) + (y.m + mshift - x.m).scale(30) + (P(d2) - P(d1))


def d30(q, d, least=31):
    return const(30) if q.ge(d, least) else P(d)


def us(q, x, y, term=None):
    d1 = d30(q, x.d)
    d2 = const(30) if q.eq(y.d, 31) and q.ge(x.d, 30) else y.d
    if x.lastfeb(q):
        if y.lastfeb(q):
            d2 = const(30)
        d1 = const(30)
    return thirty(q, x, y, d1, d2)


def isma(q, x, y, term=None):
    d1 = d30(q, x.d)
    d2 = const(30) if q.eq(y.d, 31) and q.ge(x.d, 30) else y.d
    return thirty(q, x, y, d1, d2)


def eu(q, x, y, term=None):
    return thirty(q, x, y, d30(q, x.d), d30(q, y.d))


def it_(q, x, y, term=None):
    def f(z):
        return const(30) if q.eq(z.m, 2) and q.gt(z.d, 27) else d30(q, z.d)
    return thirty(q, x, y, f(x), f(y))


def isda(q, x, y, term):
    d1 = const(30) if x.lastfeb(q) else d30(q, x.d)
    d2 = const(30) if not q.eq(y.s, term) and y.lastfeb(q) else d30(q, y.d)
    return thirty(q, x, y, d1, d2)


def nasd(q, x, y, term=None):
    d1 = d30(q, x.d)
    if q.eq(y.d, 31):
        if q.lt(x.d, 30):
            return thirty(q, x, y, d1, const(1), 1)
        return thirty(q, x, y, d1, const(30))
    return thirty(q, x, y, d1, y.d)


def thirty365(q, x, y):
    return thirty(q, x, y, x.d, y.d)


def methods(F):
    return {n: F.one(n, "DayCounter") for n in ("day_count", "year_fraction", "name")}


def check_counter(ck, key, fn, args, count, fraction, name, **kw):
    """count(q, a, b), fraction(q, a, b) against the public methods of the day counter built by fn(args)"""
    F = ck.F
    b = build(ck, fn, args)
    if b is None:
        return
    E, st, r = b
    r = ref(E, st, to_counter(ck, E.read(st, r.cell, r.path), F))
    ms = methods(F)
    a_, b_ = A_(), B_()
    x, y = Ymd(a_), Ymd(b_)
    da, db = ref(E, st, D(F, a_)), ref(E, st, D(F, b_))
    if count is not None:
        ck.verify(key + ":day_count", ms["day_count"], [r, da, db], lambda q: count(q, x, y), E, st)
    E.panics = []
    rs, re_ = ref(E, st, D(F, var("rs", "int", MIN_SERIAL, MAX_SERIAL))), ref(E, st, D(F, var("re", "int", MIN_SERIAL, MAX_SERIAL)))
    if fraction is not None:
        ck.verify(key + ":year_fraction", ms["year_fraction"], [r, da, db, rs, re_], lambda q: fraction(q, x, y), E, st, **kw)
    E.panics = []
    if name is not None:
        ck.verify(key + ":name", ms["name"], [r], lambda q: Str(name), E, st)
    ck.count("day_counters")


@check("Y01")
def y01(ck):
    """actual/360, actual/366, 1/1, simple, 30/365"""
    F = ck.F
    ck.explanation = ("MIR abstract interpretation: every public constructor is analysed and the public day_count / year_fraction / name of the DayCounter it builds are "
                      "compared, for arbitrary dates, with the convention's formula (dispatch included)")
    ck.assumptions = ["date components: D01", "date difference: D03"] + TRUST
    days = lambda q, x, y: y.s - x.s
    for ty, nm, den in (("Actual360", "Actual/360", 360), ("Actual366", "Actual/366", 366)):
        for fname in ("new", "default"):
            for fn in F.find(fname, ty, "*"):
                check_counter(ck, "%s:%s" % (ty, fname), fn, (), days, lambda q, x, y: (y.s - x.s).scale(Fraction(1, den)), nm)
        for inc in (False, True):
            off = int(inc)
            check_counter(ck, "%s:with_last_day:%s" % (ty, inc), F.one("with_last_day", ty), (TRUE if inc else FALSE,),
                          lambda q, x, y: y.s - x.s + off, lambda q, x, y: (y.s - x.s + off).scale(Fraction(1, den)), nm + (" (inc)" if inc else ""))
    check_counter(ck, "actual360", F.one("actual360", "DayCounter"), (), days, lambda q, x, y: (y.s - x.s).scale(Fraction(1, 360)), "Actual/360")
    one = lambda q, x, y: const(1) if q.ge(y.s, x.s) else const(-1)
    for fn in F.find("new", "One"):
        check_counter(ck, "One:new", fn, (), one, one, "1/1")

    def simple(q, x, y):
        """whole months when the days of month match (or are clamped at a month end), bond basis otherwise"""
        if q.eq(x.d, y.d) or (q.gt(x.d, y.d) and y.eom(q)) or (q.lt(x.d, y.d) and x.eom(q)):
            return y.y - x.y + (y.m - x.m).scale(Fraction(1, 12))
        return isma(q, x, y).scale(Fraction(1, 360))
    for fn in F.find("new", "Simple") + F.find("simple", "DayCounter"):
        check_counter(ck, "Simple:" + fn.name, fn, (), isma, simple, "Simple")
    for fn in F.find("new", "Thirty365"):
        check_counter(ck, "Thirty365:new", fn, (), thirty365, lambda q, x, y: thirty365(q, x, y).scale(Fraction(1, 365)), "30/365")
    ck.floor("day counters", ck.counts.get("day_counters", 0), 12)


@check("Y02")
def y02(ck):
    """30/360"""
    F = ck.F
    ck.explanation = "MIR abstract interpretation of every 30/360 constructor and the day_count / year_fraction / name of the counter it builds, for arbitrary dates, against the documented rules"
    ck.assumptions = ["date components: D01"] + TRUST
    t = var("t", "int", MIN_SERIAL, MAX_SERIAL)
    convs = [(("usa",), us, "30/360 (US)"), (("isma", "bond_basis"), isma, "30/360 (Bond Basis)"), (("european", "euro_bond_basis"), eu, "30E/360 (Eurobond Basis)"),
             (("italian",), it_, "30/360 (Italian)"), (("isda", "german"), isda, "30E/360 (ISDA)"), (("nasd",), nasd, "30/360 (NASD)")]
    for names, spec, nm in convs:
        for name in names:
            for fn in F.find(name, "DayCounter"):
                args = [D(F, t)] if fn.body.argc == 1 else []
                check_counter(ck, name, fn, args, lambda q, x, y: spec(q, x, y, t), lambda q, x, y: spec(q, x, y, t).scale(Fraction(1, 360)), nm)
    ck.floor("constructors", ck.counts.get("day_counters", 0), 9)


def isda_act(q, x, y):
    """whole years between, plus the shares of the two end years, each over its own length"""
    if q.eq(x.s, y.s):
        return const(0)
    if q.gt(x.s, y.s):
        return -isda_act(q, y, x)
    jan1 = lambda k: E_som(P(k).scale(12) + 1)
    den = lambda k: const(Fraction(1, 366)) if q.eq(comp("leap", k), 1) else const(Fraction(1, 365))
    if q.eq(x.y, y.y):
        return (y.s - x.s) * den(x.y)
    return y.y - x.y - 1 + (jan1(x.y + 1) - x.s) * den(x.y) + (y.s - jan1(y.y)) * den(y.y)


def year_2199(p):
    """1 January 2200 is not a supported date"""
    return p.kind == "date-range" and any(p.state.store.bounds(comp("yr", x())).singleton() == 2199 for x in (A_, B_))


@check("Y03")
def y03(ck):
    """Actual/Actual ISDA"""
    F = ck.F
    ck.explanation = "MIR abstract interpretation of Actual/Actual (ISDA) for arbitrary ordered and reversed dates against the definition (each year's days over that year's length)"
    ck.assumptions = ["date components: D01", "1 January 2200 cannot be represented: year fractions starting in 2199 may be rejected"] + TRUST
    days = lambda q, x, y: y.s - x.s
    check_counter(ck, "isda", F.one("actual_actual_isda", "DayCounter"), (), days, isda_act, "Actual/Actual (ISDA)", allow_panic=year_2199)
    for name in ("isma", "old_isma", "afb"):
        fn = F.one("actual_actual_" + name, "DayCounter")
        args = [Sym(mk("var", "schedule", sort="val"), F.adt_ty("Schedule"))] if fn.body.argc else []
        check_counter(ck, name, fn, args, days, None, "Actual/Actual (AFB)" if name == "afb" else "Actual/Actual (ISMA)")
    ck.floor("counters", ck.counts.get("day_counters", 0), 4)


@check("Y04")
def y04(ck):
    """equality of day counters"""
    F = ck.F
    ck.explanation = "MIR abstract interpretation of == on every ordered pair of day counters built by the public constructors: equal exactly when their names are"
    ck.assumptions = TRUST
    made = []
    eq = F.one("eq", "DayCounter", "PartialEq")
    name = F.one("name", "DayCounter")
    E, st0 = setup(ck)
    ctors = [f for f in F.fns.values() if f.pub and not f.trait and f.body.locals[0] == F.adt_ty("DayCounter") and not f.is_closure] + \
            [f for t in ("Actual360", "Actual366") for f in F.find("with_last_day", t)]
    for fn in sorted(ctors, key=lambda f: f.key):
        ts = fn.body.locals[1:fn.body.argc + 1]
        for inc in ((TRUE, FALSE) if ts and ts[0] == ("bool",) else (None,)):
            args = []
            for i, t in enumerate(ts):
                args.append(inc if t == ("bool",) else D(F, var("t%d" % i, "int", MIN_SERIAL, MAX_SERIAL)) if t == F.adt_ty("Date") else E.sym("x%d" % i, t))
            for x in ck.run(E, fn, args, st0.copy(), key=fn.name) or []:
                v = to_counter(ck, x.value, F)
                n = ck.run(E, name, [ref(E, x.state, v)], x.state, key=fn.name + ":name")
                if not n or len(n) != 1 or not isinstance(n[0].value, Str):
                    ck.ob(fn.name + ":name", False, "the name of the counter made by %s is not a constant" % fn.nice())
                    continue
                made.append((fn.name, v, n[0].value.s))
    for a, v, n in made:
        for b, w, m in made:
            st = st0.copy()
            ck.verify("eq:%s:%s" % (n, m), eq, [ref(E, st, v), ref(E, st, w)], lambda q: TRUE if n == m else FALSE, E, st)
    ck.floor("counters", len(made), 16)
