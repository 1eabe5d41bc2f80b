"""Bonds and instruments"""
from run import *
from dates import *
from dates_core import ref, TRUST
from models import fexp
from loops import ite, ind, sum_, iter_, first_, concat_, mapvec_
from rates import variant
from schedules import Sched
from cashflows import option, quiet, DEFAULT, method, methods, trait_key, sig, leg_fn, provided, overridden

BOND = "Bond"


class AnyBond:
    """an arbitrary implementor of Bond that keeps the provided methods"""

    def __init__(self, ck, opaque=()):
        F = self.F = ck.F
        self.ck = ck
        self.key = {x["n"]: x["key"] for x in methods(F, BOND)}
        self.E = E = ck.engine(opaque={self.key.get(o, o) for o in opaque})
        self.st = State()
        self.T = ("param", "B")
        self.v = E.sym("bond", self.T)
        self.me = ref(E, self.st, self.v)
        self.prov = provided(F)
        E.provided = self.prov - E.opaque

    def call(self, m, *args):
        """an uninterpreted method"""
        k = self.key[m]
        return self.E.opaque_call(self.st, k, [self.me] + list(args), sig(self.F, BOND, m).body.locals[0])[0][1]

    def deref(self, v):
        return self.E.read(self.st, v.cell, v.path) if isinstance(v, Ref) else v

    def verify(self, m, args, spec, name=None, **kw):
        self.E.panics = []
        k = self.key.get(m)
        if k not in self.F.fns or k not in self.prov:
            return self.ck.ob(name or m, False, "no provided method Bond::%s (or a type of the crate replaces it)" % m)
        self.ck.count("methods")
        return self.ck.verify(name or m, self.F.fns[k], [self.me] + args, spec, self.E, self.st, subst={"Self": self.T}, **kw)


@check("B01")
def b01(ck):
    """what every bond derives from its cash flows and notionals"""
    F = ck.F
    ck.explanation = ("MIR abstract interpretation of the provided methods of Bond on an arbitrary implementor with notional schedules of any length: the notional in force, tradability, accrued amount, settlement date and "
                      "the prices and yields handed to and taken from the cash-flow functions, which are uninterpreted")
    ck.assumptions = ["as many notionals as notional dates, the first date being the default date (B02)", "accrued amounts, present values and yields of legs: F04-F06, F10", "calendar advance: C05",
                      "real arithmetic for f64"] + TRUST
    x = var("x", "int", MIN_SERIAL, MAX_SERIAL)
    Dx = D(F, x)
    # notional
    B = AnyBond(ck)
    E = B.E
    dates, amounts = (B.deref(B.call(m)) for m in ("notional_schedule", "notionals"))
    n = P(mk("len", E.term(B.st, dates), sort="int"))
    at = lambda k: serial_of(E, B.st, E.value_of(mk("elem", E.term(B.st, dates), P(k)), F.adt_ty("Date")))
    amount = lambda k: P(E.value_of(mk("elem", E.term(B.st, amounts), P(k)), ("float", 64)))
    s = B.st.store.refine(n, drange(0, 2 ** 62)).refine(P(mk("len", E.term(B.st, amounts), sort="int")) - n, dconst(0))
    B.st.store = s.refine(at(ZERO), dconst(DEFAULT))

    def notional(q):
        if q.le(n, 0):
            return PANIC
        if q.gt(x, at(n - 1)):
            return ZERO
        i = P(first_(lambda k: bor(cmp(">=", P(k) - n, True), cmp(">=", at(k) - x, True))))
        if q.ge(i, n):
            return ANY          # the last date is not before x
        if q.gt(at(i), x):
            return ANY if q.le(i, 0) else amount(i - 1)
        return amount(i)
    B.verify("notional", [Dx], notional)
    # the rest, with the notional in force uninterpreted
    acc, npv, yld = (leg_fn(F, m) for m in ("accrued_amount", "npv", "bond_yield"))
    adv = F.one("advance_by_days_with_following", "Calendar")
    B = AnyBond(ck, opaque=("notional", acc.key, npv.key, yld.key, adv.key))
    E, st = B.E, B.st
    N = lambda d: P(B.call("notional", d))
    flows = B.call("cashflows")
    B.verify("is_tradeable", [Dx], lambda q: bnot(cmp("==", N(Dx), False)))

    def accrued(q, d=Dx):
        if q.eq(N(d), 0):
            return ZERO
        return P(E.opaque_call(st, acc.key, [flows, FALSE, d], ("float", 64))[0][1]) * 100 * N(d).inv()
    B.verify("accrued_amount", [Dx], accrued)

    def settle(q):
        c = F.adt("TimeUnit")
        d = E.opaque_call(st, adv.key, [B.call("calendar"), Dx, B.call("settlement_days"), variant(F, "TimeUnit", "Days"), FALSE], adv.body.locals[0])[0][1]
        issue = B.call("issue_date")
        a, b = serial_of(E, st, d), serial_of(E, st, issue)
        if q.eq(b, DEFAULT) or q.ge(a, b):
            return d
        return issue
    B.verify("settlement_date", [Dx], settle)
    y = var("y", "real")
    dc = E.sym("dc", F.adt_ty("DayCounter"))
    comp, freq = E.sym("comp", F.adt_ty("Compounding")), E.sym("freq", F.adt_ty("Frequency"))
    rejected = []

    def rate(q):
        """(state, the yield as an interest rate); None where InterestRate::new rejects it"""
        s = q.st.copy()
        rs = quiet(E, F.one("new", "InterestRate"), [P(y), dc, comp, freq], s)
        for r in rs:
            if all(q(f) for f in added(r.state.store, s.store)):
                return s, ref(E, s, r.value)
        return None

    def dirty(q):
        if q.eq(N(Dx), 0):
            return PANIC
        r = rate(q)
        if r is None:
            return PANIC
        return P(E.opaque_call(r[0], npv.key, [flows, r[1], FALSE, Dx, D(F, DEFAULT)], ("float", 64))[0][1]) * 100 * N(Dx).inv()
    B.verify("dirty_price_from_yield", [P(y), dc, comp, freq, Dx], dirty)

    def clean(q):
        p = dirty(q)
        return p if p is PANIC else p - accrued(q)
    B.verify("clean_price_from_yield", [P(y), dc, comp, freq, Dx], clean)
    price, accuracy, guess = (var(m, "real") for m in ("price", "accuracy", "guess"))
    evals = var("evals", "int", 0, 2 ** 32)
    solver = F.one("with_max_evaluations", "NewtonSafe")

    def yields(opts):
        def spec(q):
            if q.eq(N(Dx), 0):
                return PANIC
            rs = quiet(E, solver, [P(opts[1])], st)
            p = (P(price) + accrued(q)) * N(Dx) * const(Fraction(1, 100))
            s = st.copy()
            sv = ref(E, s, rs[0].value)
            return P(E.opaque_call(s, yld.key, [sv, flows, p, dc, comp, freq, FALSE, Dx, Dx, P(opts[0]), P(opts[2])], ("float", 64))[0][1])
        return spec
    usual = (const(Fraction("1e-8")), const(100), const(Fraction("0.05")))
    B.verify("bond_yield", [P(price), dc, comp, freq, Dx], yields(usual))
    given = (accuracy, evals, guess)
    for m in range(8):
        o = [v if m >> i & 1 else None for i, v in enumerate(given)]
        B.verify("bond_yield_with_options", [P(price), dc, comp, freq, Dx] + [option(E, None if v is None else P(v)) for v in o],
                 yields([u if v is None else v for u, v in zip(usual, o)]), name="bond_yield_with_options:%d" % m)
    ck.floor("methods", ck.counts.get("methods", 0), 14)


def added(new, old):
    """formulas: what the store new knows beyond old"""
    out = []
    for k, d in new.c.items():
        if old.c.get(k) != d:
            lo, hi = d.lo()[0], d.hi()[0]
            v = d.values(64)
            if v is not None:
                out.append(bor(*[cmp("==", k - const(i), True) for i in v]))
            else:
                out.append(band(*([cmp(">=", k - const(lo), True)] if lo != -inf else []), *([cmp("<=", k - const(hi), True)] if hi != inf else [])))
    return out


def fields(F, E, st, v, adt):
    return {f[0]: E.proj_field(v, None, i, st) for i, f in enumerate(F.adt(adt)["vs"][0][2])}


@check("B02")
def b02(ck):
    """fixed rate bonds"""
    F = ck.F
    ck.explanation = ("MIR abstract interpretation of the constructors of FixedRateBond for any schedule, any number of coupon rates and any combination of options; the coupons of the leg are uninterpreted, of arbitrary "
                      "number, and all have the face amount as nominal; the leg that is built, the notionals, the redemption and the cash flows are compared with the definition")
    ck.assumptions = ["coupons of a fixed-rate leg: F08; leg settings: F09; sort_by_key of the standard library is a stable sort by the key", "real arithmetic for f64"] + TRUST
    build = F.one("build", "FixedRateLeg")
    mat = leg_fn(F, "maturity_date")
    face, days = P(var("face", "real")), P(var("days", "int", -2 ** 31, 2 ** 31 - 1))
    full = F.one("new_with_options", "FixedRateBond")
    tys = full.body.locals
    options = ("payment_convention", "redemption", "issue_date", "payment_calendar", "ex_period", "ex_calendar", "ex_convention", "ex_eom", "first_dc")
    ex = [o for o in options if o.startswith("ex_")]
    coupon_ty = F.adt_ty("FixedRateCoupon")
    nominal = [i["methods"]["nominal"] for i in F.impls_by_trait[trait_key(F, "Coupon")] if i["selfty"] == coupon_ty][0]
    settings = [("new", ())] + [("none", ())] + [(o, (o,)) for o in options] + [("ex-coupon", ex)] + [("no " + o, [x for x in ex if x != o]) for o in ex] + [("all", options)]
    for name, given in settings:
        E = ck.engine(opaque={build.key}, overrides={nominal: lambda E, s, a, site, sub: [(s, face)]})
        E.provided = provided(F)
        E.peel = 1
        st = State()
        S = Sched(ck, E, st, 2)
        rates, dc = E.sym("rates", tys[4]), E.sym("dc", F.adt_ty("DayCounter"))
        args = [days, face, S.v, rates, dc]
        val = {}
        for i, o in enumerate(options):
            t = tys[len(args) + 1 + i][2][0]
            if o in given:
                val[o] = D(F, var(o, "int", MIN_SERIAL, MAX_SERIAL)) if t == F.adt_ty("Date") else P(var(o, "real")) if t[0] == "float" else cmp("==", var(o, "int", 0, 1), True) if t == ("bool",) else E.sym(o, t)
        fn = full if name != "new" else F.one("new", "FixedRateBond")
        if name != "new":
            args += [option(E, val.get(o)) for o in options]
        calendar = val.get("payment_calendar") or S.get(st, S.me, "calendar")

        def step(v, m, *a):
            rs = quiet(E, F.one(m, "FixedRateLeg"), ([] if v is None else [v]) + list(a), st)
            if len(rs) != 1:
                raise Imprecise("FixedRateLeg::%s has %d results" % (m, len(rs)))
            return rs[0].value

        def rate(k):
            r = P(E.value_of(mk("elem", rates.t, P(k)), ("float", 64)))
            rs = quiet(E, F.one("new", "InterestRate"), [r, dc, variant(F, "Compounding", "Simple"), variant(F, "Frequency", "Annual")], st)
            return E.term(rs[0].state, rs[0].value)
        new = F.one("new", "FixedRateLeg").body.locals
        leg = step(None, "new", S.v, Sym(mk("vecof", face), new[2]), Sym(mapvec_(P(mk("len", rates.t, sort="int")), rate), new[3]))
        leg = step(leg, "with_payment_adjustment", val.get("payment_convention", variant(F, "BusinessDayConvention", "Following")))
        leg = step(leg, "with_payment_calendar", calendar)
        if "first_dc" in val:
            leg = step(leg, "with_first_period_daycounter", val["first_dc"])
        if all(o in val for o in ex):
            leg = step(leg, "with_ex_coupon_period", *[val[o] for o in ex])
        coupons = E.opaque_call(st, build.key, [leg], build.body.locals[0])[0][1]
        n = P(mk("len", coupons.t, sort="int"))

        def paid(k):
            c = ref(E, st, E.value_of(mk("elem", coupons.t, P(k)), coupon_ty))
            f, subst, _ = method(E, F, coupon_ty, "CashFlow", "date")
            return serial_of(E, st, E.run(f, [c], st.copy(), subst)[0].value)

        def bond(q):
            if q.le(n, 0):
                return None
            last = paid(n - 1)
            r = quiet(E, F.one("new", "Redemption"), [face * val.get("redemption", const(100)) * const(Fraction(1, 100)), D(F, last)], st)[0]
            r = mk("vecof", E.term(r.state, r.value))
            return dict(settlement_days=days, calendar=calendar, maturity_date=D(F, S.date(S.n - 1)), issue_date=val.get("issue_date", D(F, DEFAULT)), notionals=mk("vecof", face, ZERO),
                        notional_schedule=mk("vecof", date_term(const(DEFAULT)), date_term(last)), redemptions=r, cashflows=concat_(mapvec_(n, lambda k: mk("elem", coupons.t, P(k))), r))
        names = ("settlement_days", "calendar", "maturity_date", "issue_date", "notionals", "notional_schedule", "redemptions", "cashflows")

        def value(E_, s, v):
            out = []
            vs = fields(F, E_, s, v, "FixedRateBond")
            for f in names:
                x = vs[f]
                if f == "cashflows":
                    t = E_.term(s, x)
                    x = t.args[0] if t.op == "sorted" and t.args[1] == "stable" and by_date(t.args[2]) else mk("not sorted by date", t)
                out.append(E_.term(s, x) if f in ("notionals", "notional_schedule", "redemptions") else x)
            return Agg("tuple", None, 0, tuple(out))

        def want(q):
            b = bond(q)
            return PANIC if b is None else Agg("tuple", None, 0, tuple(b[f] for f in names))

        def same(E_, s, a, b):
            bad = [f for f, x, y in zip(names, a.fields, b.fields) if not val_eq(E_, s, x, y)]
            wrong.extend((f, *[render(E_, s, v.fields[names.index(f)]) for v in (a, b)]) for f in bad)
            return not bad
        E.panics = []
        wrong = []
        if not ck.verify(name, fn, args, want, E, st, value=value, eq=same):
            for f, x, y in wrong:
                ck.ob("%s:%s" % (name, f), False, "%s: %s of the bond is %s, expected %s" % (fn.nice(), f, x, y), fn.nice())
        ck.count("settings")
    ck.floor("settings", ck.counts.get("settings", 0), 17)
    accessors(ck, "FixedRateBond", {m: m for m in ("calendar", "cashflows", "issue_date", "notional_schedule", "notionals", "settlement_days")}, mat)


def by_date(key):
    """the key is the date of the element"""
    a = key.args[0]
    if isinstance(a, T) and a.op == "serial":
        a = a.args[0]
    if not (isinstance(a, T) and a.op == "call" and str(a.args[0]).endswith("CashFlow::date") and len(a.args) == 2):
        return False
    a = a.args[1]
    while a.op == "deref":
        a = a.args[0]
    return a.op == "var" and a.args[0] == "sorted element"


def accessors(ck, adt, table, mat=None):
    """trait methods that return fields"""
    F = ck.F
    ty = F.adt_ty(adt)
    for m, f in sorted(table.items()):
        E = ck.engine()
        st = State()
        me = E.sym("bond", ty)
        fn, subst, key = method(E, F, ty, BOND, m)
        if fn is None:
            ck.ob("%s::%s" % (adt, m), False, "no code for %s::%s" % (adt, m))
            continue
        ck.verify("%s::%s" % (adt, m), fn, [ref(E, st, me)], lambda q: fields(F, E, st, me, adt)[f], E, st, subst=subst,
                  value=lambda E_, s, v: E_.read(s, v.cell, v.path) if isinstance(v, Ref) else v)
    if mat is not None:
        E = ck.engine(opaque={mat.key})
        E.provided = provided(F)
        st = State()
        me = E.sym("bond", ty)
        fn, subst, key = method(E, F, ty, BOND, "maturity_date")
        ck.verify("%s::maturity_date" % adt, fn, [ref(E, st, me)],
                  lambda q: E.opaque_call(st, mat.key, [ref(E, st, fields(F, E, st, me, adt)["cashflows"])], mat.body.locals[0])[0][1], E, st, subst=subst)


@check("B03")
def b03(ck):
    """zero coupon bonds, stocks and quotes"""
    F = ck.F
    ck.explanation = ("MIR abstract interpretation of the constructors and accessors of ZeroCouponBond for any calendar, face, maturity and combination of options (calendar adjustment uninterpreted), of its discount-yield price "
                      "and of stocks and quotes; compared field by field with the definition")
    ck.assumptions = ["calendar adjustment: C02-C04", "real arithmetic for f64"] + TRUST
    adj = F.one("adjust", "Calendar")
    full = F.one("new_with_options", "ZeroCouponBond")
    tys = full.body.locals
    options = ("payment_convention", "redemption", "issue_date")
    face, days, m = P(var("face", "real")), P(var("days", "int", -2 ** 31, 2 ** 31 - 1)), var("m", "int", MIN_SERIAL, MAX_SERIAL)
    names = ("settlement_days", "calendar", "face_amount", "maturity_date", "payment_convention", "redemption", "issue_date", "notionals", "notional_schedule", "cashflows", "redemptions")
    vecs = ("notionals", "notional_schedule", "cashflows", "redemptions")
    for mask in [None] + list(range(8)):
        E = ck.engine(opaque={adj.key})
        st = State()
        cal = E.sym("cal", F.adt_ty("Calendar"))
        args = [days, ref(E, st, cal), face, D(F, m)]
        val = dict(payment_convention=variant(F, "BusinessDayConvention", "Following"), redemption=const(100), issue_date=D(F, DEFAULT))
        opts = []
        for i, o in enumerate(options):
            t = tys[len(args) + 1 + i][2][0]
            if mask is None or not mask >> i & 1:
                opts.append(option(E, None))
                continue
            val[o] = D(F, var(o, "int", MIN_SERIAL, MAX_SERIAL)) if t == F.adt_ty("Date") else P(var(o, "real")) if t[0] == "float" else E.sym(o, t)
            opts.append(option(E, val[o]))
        fn = F.one("new", "ZeroCouponBond") if mask is None else full
        key = "new" if mask is None else "options %d" % mask

        def want(q):
            d = E.opaque_call(st, adj.key, [args[1], D(F, m), val["payment_convention"]], adj.body.locals[0])[0][1]
            r = quiet(E, F.one("new", "Redemption"), [face * val["redemption"] * const(Fraction(1, 100)), d], st)[0]
            r = mk("vecof", E.term(r.state, r.value))
            b = dict(val, settlement_days=days, calendar=cal, face_amount=face, maturity_date=D(F, m), notionals=mk("vecof", face, ZERO),
                     notional_schedule=mk("vecof", date_term(const(DEFAULT)), E.term(st, d)), cashflows=r, redemptions=r)
            return Agg("tuple", None, 0, tuple(b[f] for f in names))

        def value(E_, s, v):
            vs = fields(F, E_, s, v, "ZeroCouponBond")
            return Agg("tuple", None, 0, tuple(E_.term(s, vs[f]) if f in vecs else vs[f] for f in names))
        E.panics = []
        ck.verify(key, fn, args + (opts if mask is not None else []), want, E, st, value=value)
        ck.count("settings")
    accessors(ck, "ZeroCouponBond", {m: m for m in ("calendar", "cashflows", "issue_date", "notional_schedule", "notionals", "settlement_days", "maturity_date")})
    E = ck.engine()
    st = State()
    me = E.sym("bond", F.adt_ty("ZeroCouponBond"))
    y, x = var("y", "real"), var("x", "int", MIN_SERIAL, MAX_SERIAL)
    fs = fields(F, E, st, me, "ZeroCouponBond")
    left = serial_of(E, st, fs["maturity_date"]) - P(x)
    ck.verify("price_from_discount_yield", F.one("price_from_discount_yield", "ZeroCouponBond"), [ref(E, st, me), P(y), D(F, x)],
              lambda q: const(100) - P(y) * left * const(Fraction(100, 360)), E, st)
    months = P(mk("trunc", P(mk("fround", left.scale(Fraction(1, 30)), sort="real")), -2 ** 31, 2 ** 31 - 1, sort="int"))
    pn = [f[0] for f in F.adt("Period")["vs"][0][2]]
    ck.verify("period", F.one("period", "ZeroCouponBond"), [ref(E, st, me), D(F, x)],
              lambda q: Agg("adt", F.adt_ty("Period")[1], 0, tuple(months if n == "length" else variant(F, "TimeUnit", "Months") for n in pn)), E, st)
    ck.floor("settings", ck.counts.get("settings", 0), 9)
    # stocks and quotes
    value = [x["key"] for x in methods(F, "Quote") if x["n"] == "value"][0]
    E = ck.engine()
    st = State()
    stock = E.sym("stock", F.adt_ty("Stock"))
    quote = fields(F, E, st, stock, "Stock")["quote"]
    pc = method(E, F, F.adt_ty("Stock"), "Instrument", "perform_calculations")
    names = [f[0] for f in F.adt("InstrumentResults")["vs"][0][2]]
    v = P(E.opaque_call(st, value, [Ref(("S", quote.t, quote.ty[2][0]))], ("float", 64))[0][1])
    ck.verify("Stock::perform_calculations", pc[0], [ref(E, st, stock)],
              lambda q: Agg("adt", F.adt_ty("InstrumentResults")[1], 0, tuple({"npv": v, "error_estimate": ZERO, "valuation_date": D(F, DEFAULT)}[n] for n in names)), E, st, subst=pc[1])
    for m in ("npv", "calculate"):
        fn, subst, key = method(E, F, F.adt_ty("Stock"), "Instrument", m)
        E.panics = []
        ck.verify("Stock::" + m, fn, [ref(E, st, stock)], lambda q: v, E, st, subst=subst,
                  value=None if m == "npv" else lambda E_, s, r: E_.proj_field(r, None, names.index("npv"), s))
    x = P(var("v", "real"))
    ty = F.adt_ty("SimpleQuote")
    rs = ck.run(E, F.one("new", "SimpleQuote"), [x], st, key="SimpleQuote::new")
    for r in rs or ():
        for m, want in (("value", x), ("is_valid", TRUE)):
            fn, subst, key = method(E, F, ty, "Quote", m)
            ck.verify("SimpleQuote::" + m, fn, [ref(E, r.state, r.value)], lambda q: want, E, r.state, subst=subst)


@check("T01")
def t01(ck):
    """term structures"""
    F = ck.F
    ck.explanation = "MIR abstract interpretation of the provided methods of the yield term structure traits on an arbitrary implementor whose required methods are uninterpreted, compared with the definition"
    ck.assumptions = ["real arithmetic for f64; exp uninterpreted", "Date + Period: D10"] + TRUST
    key = lambda t, m: [x["key"] for x in methods(F, t) if x["n"] == m][0]
    E = ck.engine()
    E.provided = provided(F)
    st = State()
    T = ("param", "C")
    me = ref(E, st, E.sym("curve", T))
    t = P(var("t", "real"))
    z = "ZeroYieldStructure"
    fn = F.fns[key(z, "discount")]
    zero = P(E.opaque_call(st, key(z, "zero_yield"), [me, t], ("float", 64))[0][1])
    E.panics = []
    ck.verify("ZeroYieldStructure::discount", fn, [me, t], lambda q: ONE if q.eq(t, 0) else fexp(-zero * t), E, st, subst={"Self": T})
    y = "YieldTermStructure"
    x = var("x", "int", MIN_SERIAL, MAX_SERIAL)
    date = ref(E, st, D(F, x))
    extra = cmp("==", var("extra", "int", 0, 1), True)
    time = E.opaque_call(st, key("TermStructure", "time_from_references"), [me, date], ("float", 64))[0][1]
    E.panics = []
    ck.verify("discount_from_date", F.fns[key(y, "discount_from_date")], [me, date, extra],
              lambda q: E.opaque_call(st, key(y, "discount_frome_time"), [me, time, extra], ("float", 64))[0][1], E, st, subst={"Self": T})
    # forward rate over a period: from the date to the date moved by the period
    fwd = F.fns[key(y, "forward_rate_from_date_period")]
    n = var("n", "int", -1200, 1200)
    pn = [f[0] for f in F.adt("Period")["vs"][0][2]]
    dc, comp, freq = ref(E, st, E.sym("dc", F.adt_ty("DayCounter"))), E.sym("comp", F.adt_ty("Compounding")), E.sym("freq", F.adt_ty("Frequency"))
    for unit in ("Days", "Weeks", "Months", "Years"):
        p = Agg("adt", F.adt_ty("Period")[1], 0, tuple(P(n) if m == "length" else variant(F, "TimeUnit", unit) for m in pn))
        k = {"Days": 1, "Weeks": 7, "Months": 1, "Years": 12}[unit]

        def want(q):
            d = P(x) + P(n).scale(k) if unit in ("Days", "Weeks") else P(addm(P(x), P(n).scale(k)))
            if q.lt(d, MIN_SERIAL) or q.gt(d, MAX_SERIAL):
                return PANIC
            s = q.st.copy()
            return E.opaque_call(s, key(y, "forward_rate_from_dates"), [me, ref(E, s, D(F, x)), ref(E, s, D(F, d)), dc, comp, freq, extra], fwd.body.locals[0])[0][1]
        E.panics = []
        ck.verify("forward_rate_from_date_period:" + unit, fwd, [me, date, ref(E, st, p), dc, comp, freq, extra], want, E, st, subst={"Self": T})
