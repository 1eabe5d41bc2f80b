"""Calendar: ad-hoc holidays, adjustment, advancing, counting"""
from run import *
from dates import *
from models import set_contains
from dates_core import ref, TRUST


def cal_fields(F):
    """indices of (rules, added, removed) in Calendar"""
    fs = F.adt("Calendar")["vs"][0][2]
    h = [k for k, f in enumerate(fs) if f[1][0] == "adt" and f[1][1].endswith("::Holiday")]
    ss = [k for k, f in enumerate(fs) if f[1][0] == "adt" and f[1][1].endswith("::HashSet")]
    return fs, h, ss


def rules_key(F):
    return F.one("is_business_day", "Holiday").key


@check("C08")
def c08(ck):
    """added and removed holidays"""
    F = ck.F
    ck.explanation = ("MIR abstract interpretation of Calendar's queries and mutators on an arbitrary calendar state (arbitrary rules, "
                      "arbitrary added and removed sets): inductive step over every history of additions, removals and resets")
    ck.assumptions = ["HashSet<Date> has set semantics (Date's Eq/Hash: D03)", "market rules are an arbitrary predicate"]
    a, b = var("a", "int", MIN_SERIAL, MAX_SERIAL), var("b", "int", MIN_SERIAL, MAX_SERIAL)
    fs, _, ss = cal_fields(F)
    cty = F.adt_ty("Calendar")

    def engine():
        return ck.engine(opaque={rules_key(F)})

    def cal(E, st):
        E.fid += 1
        c = ("G", E.fid)
        st.mem[c] = Agg("adt", cty[1], 0, tuple(E.sym("cal." + f[0], f[1]) for f in fs))
        return Ref(c, (), True)

    def consistent(E, st, c):
        """an empty set has no members (for the dates asked about)"""
        out = [st]
        v = E.read(st, c.cell, c.path)
        for k in ss:
            s = v.fields[k]
            t = s.t if isinstance(s, Sym) else s
            while isinstance(t, T) and t.op != "emptyset":
                for p in (a, b):
                    ax = bnot(band(batom("isempty", t), set_contains(E, st, t, D(F, p).t)))
                    out = [x.with_store(y) for x in out for y in x.store.assume(ax, True)]
                t = t.args[0] if t.op in ("setins", "setdel") else None
        return out

    def query(E, st, name, c, p):
        """[(state, bool term)]"""
        fn = F.one(name, "Calendar")
        out = []
        for x in consistent(E, st, c):
            E.panics = []
            r = ck.run(E, fn, [c, ref(E, x, D(F, p))], x, key=name)
            if r is None:
                return []
            ck.ob(name + ":panic", not E.panics, "%s panics" % name)
            out += [(y.state, y.value) for y in r]
        return out

    def boolean(v):
        return (TRUE if v else FALSE) if isinstance(v, bool) else v

    def rule(E, st, c, p):
        """the market's own rules"""
        fn = F.one("is_business_day", "Holiday")
        v = E.read(st, c.cell, c.path)
        h = next(x for x, f in zip(v.fields, fs) if f[1][0] == "adt" and f[1][1].endswith("::Holiday"))
        r = E.opaque_call(st, fn.key, [ref(E, st, h), ref(E, st, D(F, p))], ("bool",))
        return r[0][0], boolean(r[0][1])

    def same(key, E, st, v, w, what):
        v, w = boolean(v), boolean(w)
        for tv in (True, False):
            for s in st.store.assume(v, tv):
                bad = s.assume(w, not tv)
                if not ck.ob(key, not bad, "%s (when %s)" % (what, describe(st.with_store(bad[0]), E) if bad else "")):
                    return False
        return True

    queries = ["is_holiday"] + (["is_business_day"] if F.find("is_business_day", "Calendar") else [])
    for qn in queries:
        neg = (lambda x: x) if qn == "is_holiday" else (lambda x: bnot(boolean(x)))
        # a fresh calendar follows the rules
        for fn in F.find("new", "Calendar"):
            E = engine()
            E.fid += 1
            st = State()
            r = ck.run(E, fn, [E.sym("h", fn.body.locals[1])], st, key="new")
            for x in r or []:
                c = ref(E, x.state, x.value)
                for s, v in query(E, x.state, qn, c, a):
                    s2, w = rule(E, s, c, a)
                    same("fresh:" + qn, E, s2, neg(v), bnot(w), "a fresh calendar's %s does not follow the market's rules" % qn)
        for op, want in (("add_holiday", TRUE), ("remove_holiday", FALSE), ("reset_added_and_removed_holidays", None)):
            fn = F.one(op, "Calendar")
            E = engine()
            st = State()
            c = cal(E, st)
            for s, before in query(E, st, qn, c, a):
                args = [c] + ([D(F, b)] if want is not None else [])
                E.panics = []
                r = ck.run(E, fn, args, s, key=op)
                ck.ob(op + ":panic", not E.panics, "%s panics" % op)
                for x in r or []:
                    for s2, after in query(E, x.state, qn, c, a):
                        if want is None:
                            s3, w = rule(E, s2, c, a)
                            same("%s:%s" % (op, qn), E, s3, neg(after), bnot(w), "after a reset %s does not follow the market's rules" % qn)
                            continue
                        eqs = cmp("==", a - b, True)
                        for y in s2.store.assume(eqs, True):
                            same("%s:%s:day" % (op, qn), E, s2.with_store(y), neg(after), want, "after %s the day's status is not changed as asked" % op)
                        for y in s2.store.assume(eqs, False):
                            same("%s:%s:other" % (op, qn), E, s2.with_store(y), neg(after), neg(before), "%s changes the status of another day" % op)
                    # the rules are untouched
                    s4, w0 = rule(E, s, c, a)
                    s5, w1 = rule(E, x.state, c, a)
                    ck.ob(op + ":rules", w0 is w1, "%s changes the market's rules" % op)
            ck.count("mutators")
    ck.floor("mutators", ck.counts.get("mutators", 0), 3)


# ---- adjustment, advancing, counting ------------------------------------------------------------------
# is_holiday / is_business_day become one uninterpreted predicate of (calendar, date); C08 proves that every
# state of a calendar has such a predicate and that the two queries are each other's negation.

from loops import first_, sum_, filtermap_, iter_, ite, ind, concat_


class Cal:
    """an arbitrary calendar"""

    def __init__(self, ck, **kw):
        F = ck.F
        self.ck, self.F = ck, F
        fns = F.find("is_holiday", "Calendar")
        bs = F.find("is_business_day", "Calendar")
        ov = dict(kw.pop("overrides", None) or {})
        for f in fns:
            ov[f.key] = lambda E, st, args, site, subst: [(st, self.pred(E, st, args))]
        for f in bs:
            ov[f.key] = lambda E, st, args, site, subst: [(st, bnot(self.pred(E, st, args)))]
        for f in F.find("is_weekend", "Calendar"):
            ov[f.key] = lambda E, st, args, site, subst: [(st, self.wkend(E.discr_of(args[1])))]
        # market rules asked directly would bypass the ad-hoc holidays
        self.E = ck.engine(opaque={rules_key(F)} | kw.pop("opaque", set()), overrides=ov, **kw)
        self.st = State()
        self.cal = self.E.sym("cal", F.adt_ty("Calendar"))
        self.ref = ref(self.E, self.st, self.cal)

    def pred(self, E, st, args):
        c, d = args
        while isinstance(d, Ref):
            d = E.read(st, d.cell, d.path)
        p = dates.serial_of(E, st, d)
        if p is None:
            raise Imprecise("date %r" % (d,))
        return hol(E.term(st, c), p)

    def wkend(self, w):
        return batom("wkend", self.cal.t, P(w))

    def H(self, p):
        return hol(self.cal.t, p)


def hol(cal, p):
    return batom("hol", cal, P(p))


def in_range(p):
    return band(cmp(">=", P(p) - MIN_SERIAL, True), cmp("<=", P(p) - MAX_SERIAL, True))


def date_range(p):
    return p.kind == "date-range"


CONV = ["Following", "ModifiedFollowing", "Preceding", "ModifiedPreceding", "Unadjusted", "HalfMonthModifiedFollowing", "Nearest"]


def ym(p):
    """month number since year 0"""
    return atom("yr", P(p)) * 12 + atom("mon", P(p))


def following(c, p):
    return p + first_(lambda j: bnot(c.H(p + j)))


def preceding(c, p):
    return p - first_(lambda j: bnot(c.H(p - j)))


def nearest(c, p):
    n = first_(lambda j: bnot(band(c.H(p + j), c.H(p - j))))
    return ite(c.H(p + n), p - n, p + n)


def adjusted(c, q, conv, p):
    """the convention's definition"""
    if conv == "Unadjusted":
        return p
    f, b = following(c, p), preceding(c, p)
    if conv == "Following":
        return f
    if conv == "Preceding":
        return b
    if conv == "ModifiedFollowing":
        return f if q(cmp("==", atom("mon", f) - atom("mon", p), True)) else b
    if conv == "ModifiedPreceding":
        return b if q(cmp("==", atom("mon", b) - atom("mon", p), True)) else f
    if conv == "HalfMonthModifiedFollowing":
        if not q(cmp("==", atom("mon", f) - atom("mon", p), True)):
            return b
        if q(cmp("<=", atom("dom", p) - 15, True)) and q(cmp(">", atom("dom", f) - 15, True)):
            return b
        return f
    if conv == "Nearest":
        return nearest(c, p)
    raise KeyError(conv)


def serial(E, s, v):
    return dates.serial_of(E, s, v)


@check("C09")
def c09(ck):
    """adjustment conventions"""
    F = ck.F
    ck.explanation = "MIR abstract interpretation of Calendar::adjust for an arbitrary calendar and date; searches summarised by their closed form (least number of steps satisfying the exit condition)"
    ck.assumptions = ["is_holiday is a predicate of the date: C08"] + TRUST
    a = var("a", "int", MIN_SERIAL, MAX_SERIAL)
    fn = F.one("adjust", "Calendar")
    for conv in CONV:
        c = Cal(ck)
        cv = enumv(F, "BusinessDayConvention", const(dict((n, d) for n, d, _ in F.adt("BusinessDayConvention")["vs"])[conv]))
        ck.verify("adjust:" + conv, fn, [c.ref, D(F, a), cv], lambda q: adjusted(c, q, conv, a), c.E, c.st, value=serial, allow_panic=date_range)
        ck.count("conventions")
    c = Cal(ck)
    for fn in F.find("adjust_with_following", "Calendar"):
        ck.verify("adjust_with_following", fn, [c.ref, D(F, a)], lambda q: following(c, a), c.E, c.st, value=serial, allow_panic=date_range)
    ck.floor("conventions", ck.counts.get("conventions", 0), 7)


def convv(F, conv):
    return enumv(F, "BusinessDayConvention", const(dict((n, d) for n, d, _ in F.adt("BusinessDayConvention")["vs"])[conv]))


def unitv(F, unit):
    return enumv(F, "TimeUnit", const(dict((n, d) for n, d, _ in F.adt("TimeUnit")["vs"])[unit]))


def bday_steps(c, a, n, sgn):
    """n business days after (before) a"""
    return iter_(n, P(a), lambda k, p: following(c, p + 1) if sgn > 0 else preceding(c, p - 1))


def month_end(c, p):
    """last business day of the month of p"""
    return preceding(c, dates.eom_t(p))


def unit_move(a, n, unit):
    return {"Days": lambda: a + n, "Weeks": lambda: a + P(n).scale(7), "Months": lambda: dates.addm(a, n), "Years": lambda: dates.addm(a, P(n).scale(12))}[unit]()


def advanced(c, q, a, n, unit, conv, eom):
    """Calendar::advance_*"""
    if q.eq(n, 0):
        return adjusted(c, q, conv, a)
    if unit == "Days":
        return bday_steps(c, a, n, 1) if q.gt(n, 0) else bday_steps(c, a, -P(n), -1)
    m = unit_move(a, n, unit)
    if unit in ("Months", "Years") and q(eom) and q(is_month_end(c, a)):
        return month_end(c, m)
    return adjusted(c, q, conv, m)


def is_month_end(c, a):
    """no business day of a's month comes after a"""
    return cmp("!=", atom("mon", a) - atom("mon", following(c, P(a) + 1)), True)


def adv_panic(p):
    return p.kind in ("date-range",)


@check("C10")
def c10(ck):
    """advancing over business days and periods"""
    F = ck.F
    ck.explanation = ("MIR abstract interpretation of every advance_* function for an arbitrary calendar, date, length, convention and flag; business-day steps summarised "
                      "as a recurrence whose body is the search for the next business day")
    ck.assumptions = ["is_holiday: C08", "date + period: D04", "lengths within +-%d" % 5000000] + TRUST
    a = var("a", "int", MIN_SERIAL, MAX_SERIAL)
    n = var("n", "int", -5000000, 5000000)
    eom = cmp("==", var("eom", "int", 0, 1) - 1, True)
    by_days, by_per = F.one("advance_by_days", "Calendar"), F.one("advance_by_period", "Calendar")
    pf = [f[0] for f in F.adt("Period")["vs"][0][2]]

    def per(unit):
        return Agg("adt", F.adt_ty("Period")[1], 0, [n if x == "length" else unitv(F, unit) for x in pf])

    def shaped(fn, unit, conv, c):
        """arguments by parameter type"""
        out = []
        for i in range(1, fn.body.argc + 1):
            t = tystr(fn.body.locals[i])
            out.append(c.ref if "Calendar" in t else D(F, a) if t == "Date" else per(unit) if t == "Period" else n if t in ("i32", "Integer") else
                       unitv(F, unit) if t == "TimeUnit" else convv(F, conv) if t == "BusinessDayConvention" else eom)
        return out

    fns = [(by_days, CONV), (by_per, CONV)]
    fns += [(f, ("Following",)) for nm in ("advance_by_days_with_following", "advance_by_period_with_following") for f in F.find(nm, "Calendar")]
    for fn, convs in fns:
        for conv in convs:
            for unit in ("Days", "Weeks", "Months", "Years"):
                c = Cal(ck)
                ck.verify("%s:%s:%s" % (fn.name, conv, unit), fn, shaped(fn, unit, conv, c), lambda q: advanced(c, q, a, n, unit, conv, eom), c.E, c.st, value=serial, allow_panic=adv_panic)
                ck.count("combinations")
    ck.floor("combinations", ck.counts.get("combinations", 0), 56)


@check("C11")
def c11(ck):
    """counting and listing business days and holidays"""
    F = ck.F
    ck.explanation = "MIR abstract interpretation; counting loops become sums of indicators, listing loops filtered sequences"
    ck.assumptions = ["is_holiday: C08"] + TRUST
    a, b = var("a", "int", MIN_SERIAL, MAX_SERIAL), var("b", "int", MIN_SERIAL, MAX_SERIAL)
    fl = [cmp("==", var(x, "int", 0, 1) - 1, True) for x in ("first", "last")]
    fn = F.one("business_days_between", "Calendar")
    c = Cal(ck)

    def spec(q):
        B = lambda p: bnot(c.H(p))
        if q.eq(a, b):
            return ind(band(B(a), *fl))
        lo, hi = (a, b) if q.lt(a, b) else (b, a)
        n = sum_(hi - lo - 1, lambda j: ind(B(lo + 1 + j)))
        n = n + ind(band(B(a), fl[0])) + ind(band(B(b), fl[1]))
        return n if q.lt(a, b) else -n
    ck.verify("business_days_between", fn, [c.ref, D(F, a), D(F, b)] + fl, spec, c.E, c.st)
    for fn in F.find("holiday_list", "Calendar"):
        c = Cal(ck)
        wk = cmp("==", var("wk", "int", 0, 1) - 1, True)
        we = lambda p: c.wkend(comp("wd", p))
        ck.verify("holiday_list", fn, [c.ref, D(F, a), D(F, b), wk],
                  lambda q: PANIC if q.lt(b, a) else Sym(filtermap_(b - a + 1, lambda j: band(c.H(a + j), bor(wk, bnot(we(a + j)))), lambda j: dterm(a + j)), vec_ty(F)), c.E, c.st)
    for fn in F.find("business_day_list", "Calendar"):
        c = Cal(ck)
        ck.verify("business_day_list", fn, [c.ref, D(F, a), D(F, b)],
                  lambda q: PANIC if q.lt(b, a) else Sym(filtermap_(b - a + 1, lambda j: bnot(c.H(a + j)), lambda j: dterm(a + j)), vec_ty(F)), c.E, c.st)


def vec_ty(F):
    return ("adt", "alloc::vec::Vec", (F.adt_ty("Date"),))


def dterm(p):
    return mk("date", P(p))


@check("C12")
def c12(ck):
    """month ends in business days"""
    F = ck.F
    ck.explanation = "MIR abstract interpretation for an arbitrary calendar and date"
    ck.assumptions = ["is_holiday: C08", "adjust: C09"] + TRUST
    a = var("a", "int", MIN_SERIAL, MAX_SERIAL)
    c = Cal(ck)
    ck.verify("end_of_month", F.one("end_of_month", "Calendar"), [c.ref, ref(c.E, c.st, D(F, a))], lambda q: month_end(c, a), c.E, c.st, value=serial, allow_panic=date_range)
    c = Cal(ck)
    ck.verify("is_end_of_month", F.one("is_end_of_month", "Calendar"), [c.ref, ref(c.E, c.st, D(F, a))], lambda q: is_month_end(c, a), c.E, c.st, allow_panic=date_range)
