"""Schedules"""
from run import *
from dates import *
from dates_core import ref, TRUST
from loops import ite, ind, sum_, iter_, first_, concat_, mapvec_
from rates import variant
from cashflows import option, quiet, DEFAULT

IMM_RULES = ("TwentiethIMM", "OldCDS", "CDS", "CDS2015")


def twentieth(main, after):
    def f(s):
        if s is None:
            return None
        d = to_date(s)
        k = d.year * 12 + d.month - 1
        while True:
            x = civil(k // 12, k % 12 + 1, 20)
            if (x >= s if after else x <= s) and (not main or k % 3 == 2):
                return x
            k += 1 if after else -1
    return f


for _m in (False, True):
    for _a in (False, True):
        OPS["tw%d%d" % (_m, _a)] = twentieth(_m, _a)


def tw(v, main, after):
    return P(mk("tw%d%d" % (main, after), v, sort="int"))


@check("S02")
def s02(ck):
    """twentieths of the month; CDS maturities"""
    F = ck.F
    ck.explanation = ("MIR abstract interpretation with the exact powerset domain over all supported dates of the functions that find the 20th before and after a date, for every generation rule, and of "
                      "cds_maturity for every rule, tenor unit and length; oracle: the latest (first) 20th of a month - of March, June, September, December for the IMM-like rules - not after (before) the date")
    ck.assumptions = TRUST + ["Date::new, date arithmetic, month ends: D01-D05"]
    fd, v = date_domain()
    rules = [x[0] for x in F.adt("DateGenerationRule")["vs"]]
    first, last = civil(1900, 3, 20), civil(2199, 9, 20)
    for name, after in (("previous_twentieth", False), ("next_twentieth", True)):
        fs = [f for f in F.find(name) if f.self_ty is None]
        if not fs and after:
            continue        # private helper; what it is for is decided on the schedules themselves
        fn = fs[0] if len(fs) == 1 else F.one(name)
        for r in rules:
            E = ck.engine()
            st = State(store=Store(fd=fd).refine(v, drange(first, last)))
            ck.verify("%s:%s" % (name, r), fn, [ref(E, st, D(F, v)), variant(F, "DateGenerationRule", r)], lambda q: D(F, tw(v, r in IMM_RULES, after)), E, st)
            ck.count("functions")
    # CDS maturity: tenor of n months or years; tw10(D) is the main twentieth not after D
    fn = F.one("cds_maturity")
    names = [f[0] for f in F.adt("Period")["vs"][0][2]]
    prev = F.one("previous_twentieth")
    E = ck.engine(overrides={prev.key: lambda E, s, args, site, subst: [(s, D(F, tw(v, True, False)))]})
    n = var("n", "int", -2 ** 31 + 1, 2 ** 31 - 1)
    for r in rules:
        for unit in [x[0] for x in F.adt("TimeUnit")["vs"]]:
            st = State(store=Store(fd=fd).refine(v, drange(first, last)))
            tenor = Agg("adt", F.adt_ty("Period")[1], 0, tuple(n if x == "length" else variant(F, "TimeUnit", unit) for x in names))
            mode = {"Years": 12, "Months": 1}.get(unit)

            def want(q):
                if r not in ("CDS2015", "CDS", "OldCDS") or mode is None:
                    return PANIC
                if unit == "Months" and not q.eq(iexpr("irem", n, const(3)), 0):
                    return PANIC
                if r == "OldCDS" and q.eq(n, 0):
                    return PANIC
                s = tw(v, True, False)
                if r == "CDS2015" and q(bor(*[cmp("==", P(mk("mon", s, sort="int")) - k, True) for k in (6, 12)])):
                    if q.eq(n, 0):
                        return D(F, DEFAULT)
                    s = addm(s, -3)
                for k in (n * mode, 3):
                    s = addm(s, k)
                    if q.lt(s, MIN_SERIAL) or q.gt(s, MAX_SERIAL):
                        return PANIC        # leaves the supported dates
                return PANIC if q.le(s, v) else D(F, s)
            E.panics = []
            ck.verify("cds_maturity:%s:%s" % (r, unit), fn, [ref(E, st, D(F, v)), tenor, variant(F, "DateGenerationRule", r)], want, E, st)
            ck.count("functions")


def seq_of(E, st, v):
    """a sequence value as a term"""
    return v if isinstance(v, T) else E.term(st, v)


class Sched:
    """an arbitrary schedule seen through its accessors: n >= 1 dates and one regularity flag per period"""

    def __init__(self, ck, E, st, least=1):
        F = self.F = ck.F
        self.E, self.st = E, st
        self.v = E.sym("sch", F.adt_ty("Schedule"))
        self.me = ref(E, st, self.v)
        self.dates = self.get(st, self.me, "dates")
        self.n = P(mk("len", self.dates, sort="int"))
        s = st.store.refine(self.n, drange(least, 2 ** 62))
        self.flags = None
        for i, f in enumerate(F.adt("Schedule")["vs"][0][2]):
            t = f[1]
            if t[0] == "adt" and t[1].endswith("::Vec") and t[2][0] == ("bool",):
                self.flags = mk("fld", self.v.t, 0, i)
                s = s.refine(P(mk("len", self.flags, sort="int")) - self.n, dconst(-1))
        st.store = s

    def get(self, st, me, m, *args):
        rs = quiet(self.E, self.F.one(m, "Schedule"), [me] + list(args), st)
        if len(rs) != 1:
            raise Imprecise("Schedule::%s has %d results" % (m, len(rs)))
        v = rs[0].value
        v = self.E.read(rs[0].state, v.cell, v.path) if isinstance(v, Ref) else v
        return seq_of(self.E, st, v) if m == "dates" else v

    def date(self, k):
        return serial_of(self.E, self.st, self.E.value_of(mk("elem", self.dates, P(k)), self.F.adt_ty("Date")))


@check("S03")
def s03(ck):
    """schedule queries and truncation"""
    F = ck.F
    ck.explanation = ("MIR abstract interpretation of the queries and truncations of a schedule of any length: the searching, removing and popping loops become closed forms which are compared with the definition "
                      "(first date not before; dates from / up to the truncation date, which is added with an irregular period when missing)")
    ck.assumptions = ["one regularity flag per period: S04"] + TRUST
    x = var("x", "int", MIN_SERIAL, MAX_SERIAL)

    def setup(least=1):
        E = ck.engine()
        st = State()
        S = Sched(ck, E, st, least)
        return E, st, S
    E, st, S = setup()
    today = [f[0] for f in F.adt("PricingContext")["vs"][0][2]].index("eval_date")
    ctx = [i for i, f in enumerate(F.adt("Schedule")["vs"][0][2]) if f[1] == F.adt_ty("PricingContext")][0]
    ev = serial_of(E, st, E.proj_field(E.proj_field(S.v, None, ctx, st), None, today, st))

    def search(q, d):
        return P(first_(lambda k: bor(cmp(">=", P(k) - S.n, True), cmp(">=", S.date(k) - d, True))))
    for name in ("next_date", "previous_date"):
        def want(q):
            d = ev if q.eq(x, DEFAULT) else x
            i = search(q, d)
            if name == "next_date":
                return D(F, S.date(i)) if q.lt(i, S.n) else D(F, DEFAULT)
            return D(F, DEFAULT) if q.eq(i, 0) else D(F, S.date(i - 1))
        ck.verify(name, F.one(name, "Schedule"), [S.me, ref(E, st, D(F, x))], want, E, st)
        ck.count("queries")
    E, st, S = setup()
    for name, want in (("size", lambda q: S.n), ("empty", lambda q: cmp("==", S.n, True)), ("has_is_regular", lambda q: bnot(cmp("==", S.n - 1, True))),
                       ("start_date", lambda q: D(F, S.date(ZERO))), ("end_date", lambda q: D(F, S.date(S.n - 1)))):
        E.panics = []
        ck.verify(name, F.one(name, "Schedule"), [S.me], want, E, st, value=lambda E_, s, v: E_.read(s, v.cell, v.path) if isinstance(v, Ref) else v)
        ck.count("queries")
    i = var("i", "int", 0, 2 ** 63)
    E.panics = []
    ck.verify("is_regular", F.one("is_regular", "Schedule"), [S.me, i],
              lambda q: PANIC if q.lt(i, 1) or q.ge(i, S.n) else E.value_of(mk("elem", S.flags, i - 1), ("bool",)), E, st)
    for name in ("after", "until"):
        E, st, S = setup()
        fn = F.one(name, "Schedule")
        elem = lambda j: mk("elem", S.dates, P(j))
        flag = lambda j: mk("elem", S.flags, P(j))
        last = S.n - 1

        def cut(q):
            """(dates, flags) of the truncated schedule"""
            if name == "after":
                if q.ge(x, S.date(last)):
                    return PANIC
                if q.le(x, S.date(ZERO)):
                    return S.dates, S.flags
                i = P(first_(lambda k: cmp(">=", S.date(k) - x, True)))
                if q.gt(i, last):
                    return ANY      # the last date is not before x
                ds, fs = mapvec_(S.n - i, lambda j: elem(i + j)), mapvec_(last - i, lambda j: flag(i + j))
                if q.eq(S.date(i), x):
                    return ds, fs
                return concat_(mk("vecof", date_term(x)), ds), concat_(mk("vecof", FALSE), fs)
            if q.le(x, S.date(ZERO)):
                return PANIC
            if q.ge(x, S.date(last)):
                return S.dates, S.flags
            i = P(first_(lambda k: cmp("<=", S.date(last - P(k)) - x, True)))
            if q.gt(i, last):
                return ANY
            ds, fs = mapvec_(S.n - i, elem), mapvec_(last - i, flag)
            if q.eq(S.date(last - i), x):
                return ds, fs
            return concat_(ds, mk("vecof", date_term(x))), concat_(fs, mk("vecof", FALSE))

        def parts(E, s, v):
            me = ref(E, s, v)
            ds = S.get(s, me, "dates")
            i = [i for i, f in enumerate(F.adt("Schedule")["vs"][0][2]) if f[1][0] == "adt" and f[1][1].endswith("::Vec") and f[1][2][0] == ("bool",)][0]
            return ds, seq_of(E, s, E.proj_field(v, None, i, s))
        for what, ix in (("dates", 0), ("regularity", 1)):
            def want(q):
                r = cut(q)
                return r[ix] if isinstance(r, tuple) else r
            E.panics = []
            ck.verify("%s:%s" % (name, what), fn, [S.me, ref(E, st, D(F, x))], want, E, st, value=lambda E_, s, v: parts(E_, s, v)[ix])
        for what in ("business_day_convention", "calendar", "end_of_month", "tenor"):
            def kept(E_, s, v, what=what):
                rs = quiet(E_, F.one(what, "Schedule"), [ref(E_, s, v)], s)
                if len(rs) != 1:
                    raise Imprecise("%s has %d results" % (what, len(rs)))
                r = rs[0].value
                return E_.read(rs[0].state, r.cell, r.path) if isinstance(r, Ref) else r

            def want(q):
                r = cut(q)
                return kept(E, q.st, S.v) if isinstance(r, tuple) else r
            E.panics = []
            ck.verify("%s:%s" % (name, what), fn, [S.me, ref(E, st, D(F, x))], want, E, st, value=kept)
        ck.count("truncations")


# ---- construction from a rule ------------------------------------------------------------------------

class Build:
    """the rule based constructor with symbolic arguments"""

    def __init__(self, ck, rule, unit=None, length=None, first=True, overrides=None, opaque=(), eom=None):
        F = self.F = ck.F
        self.fn = F.one("new", "Schedule")
        self.rule = rule
        ov = dict(overrides or {})
        ov[F.one("is_imm_date", "IMM").key] = lambda E, s, a, site, subst: [(s, self.imm(self.serial(E, s, a[1])))]
        self.E = ck.engine(overrides=ov, opaque=set(opaque))
        self.st = State()
        self.ev, self.eff, self.term, self.first, self.ntl = (var(n, "int", MIN_SERIAL, MAX_SERIAL) for n in ("eval", "effective", "termination", "first", "nexttolast"))
        if not first:
            self.first = self.ntl = const(DEFAULT)
        # lengths below the bound the crate's integers overflow at when converted
        self.len = var("length", "int", -100000, 100000) if length is None else const(length)
        self.unit = unit
        self.eom = var("eom", "int", 0, 1) if eom is None else const(eom)
        tys = self.fn.body.locals
        self.syms = {n: self.E.sym(n, tys[i]) for n, i in (("calendar", 5), ("convention", 6), ("last", 7))}
        period = Agg("adt", F.adt_ty("Period")[1], 0, tuple(P(self.len) if f[0] == "length" else variant(F, "TimeUnit", unit) for f in F.adt("Period")["vs"][0][2]))
        ctx = Agg("adt", F.adt_ty("PricingContext")[1], 0, (D(F, self.ev),))
        self.period = period
        self.args = [ctx, D(F, self.eff), D(F, self.term), period, self.syms["calendar"], self.syms["convention"], self.syms["last"], variant(F, "DateGenerationRule", rule),
                     cmp("==", P(self.eom) - 1, True), D(F, self.first), D(F, self.ntl)]

    def serial(self, E, s, v):
        while isinstance(v, Ref):
            v = E.read(s, v.cell, v.path)
        return serial_of(E, s, v)

    def imm(self, d):
        return cmp("==", P(mk("isimm", P(d), sort="int")) - 1, True)

    def month_ends(self, q):
        return self.unit in ("Months", "Years") and q.gt(self.len, 0) and q.eq(self.eom, 1)

    def reject(self, q):
        """True when the arguments must be rejected, None when that is left to the dates generated"""
        null = lambda d: q.eq(d, DEFAULT)
        if null(self.term):
            return True
        if null(self.eff):
            if self.rule != "Backward" or not null(self.first):
                return True
            return True if q.ge(self.ev, self.term) else None
        if q.ge(self.eff, self.term) or q.lt(self.len, 0):
            return True
        rule = "Zero" if q.eq(self.len, 0) else self.rule
        for d, same in ((self.first, self.eff), (self.ntl, self.term)):
            if null(d) or q.eq(d, same):
                continue
            if rule in ("Backward", "Forward"):
                if d is self.first and (q.le(d, self.eff) or q.gt(d, self.term)) or d is self.ntl and (q.lt(d, self.eff) or q.ge(d, self.term)):
                    return True
            elif rule != "ThirdWednesday" or not q(self.imm(d)):
                return True
        return rule not in ("Zero", "Backward", "Forward") and self.month_ends(q)


@check("S04")
def s04(ck):
    """arguments of the schedule constructor"""
    F = ck.F
    ck.explanation = ("MIR abstract interpretation of the rule based schedule constructor up to the point where dates are generated (the first use of the calendar or of a twentieth), for every generation rule and tenor unit and "
                      "for symbolic dates, tenor length and end-of-month flag: it is reached exactly when the arguments are consistent")
    ck.assumptions = TRUST
    rules = [x[0] for x in F.adt("DateGenerationRule")["vs"]]
    begin = [f for f in F.fns.values() if f.self_ty == F.adt_ty("Calendar") and f.body.argc and f.body.locals[1][0] == "ref"] + [f for n in ("previous_twentieth", "next_twentieth") for f in F.find(n) if f.self_ty is None]
    ck.floor("operations that generate dates", len(begin), 5)
    for rule in rules:
        for unit in ("Days", "Months", "Years") if rule not in ("Backward", "Forward") else [x[0] for x in F.adt("TimeUnit")["vs"]]:
            started = []

            def start(E, s, args, site, subst):
                started.append(s)
                return []
            B = Build(ck, rule, unit, overrides={f.key: start for f in begin})
            key = "%s:%s" % (rule, unit)
            ck.verify(key, B.fn, B.args, lambda q: PANIC if B.reject(q) else ANY, B.E, B.st)
            for s in started:
                for s2, exp in spec_leaves(B.E, s, lambda q: PANIC if B.reject(q) else ANY):
                    ck.ob(key + ":accepted", exp is not PANIC or loops.impossible(s2.store), "Schedule::new generates dates for arguments that must be rejected (when %s)" % describe(s2, B.E), B.fn.nice())
            # arguments rejected without need
            for p in B.E.panics:
                for s2, exp in spec_leaves(B.E, p.state, lambda q: {True: PANIC, False: ONE, None: ANY}[B.reject(q)]):
                    ck.ob(key + ":rejected", exp is not ONE or loops.impossible(s2.store), "Schedule::new rejects (%s at %s) consistent arguments (when %s)" % (p.kind, p.where, describe(s2, B.E)), B.fn.nice())
            ck.count("rule and unit combinations")
    ck.floor("combinations", ck.counts.get("rule and unit combinations", 0), 30)


@check("S05")
def s05(ck):
    """schedules of a single period"""
    F = ck.F
    ck.explanation = ("MIR abstract interpretation of the rule based schedule constructor for rule Zero, and for a tenor of length zero under every other rule, with symbolic dates, conventions, calendar (any adjustment) and end-of-month flag: "
                      "dates, regularity and settings of the schedule")
    ck.assumptions = ["arguments accepted or rejected: S04", "calendar adjustment: C05", "no calendar has a whole month of holidays (January 1900)"] + TRUST

    def adj(E, s, c, d, conv):
        for _ in range(2):
            c = E.read(s, c.cell, c.path) if isinstance(c, Ref) else c
        return P(mk("adjusted", E.term(s, c), P(d), E.term(s, conv), sort="int"))
    # the seed of a schedule without intermediate dates is the null date, 1 January 1900
    eom = F.one("is_end_of_month", "Calendar")
    unadjusted = [x[1] for x in F.adt("BusinessDayConvention")["vs"] if x[0] == "Unadjusted"][0]
    fields = F.adt("Schedule")["vs"][0][2]
    flags = [i for i, f in enumerate(fields) if f[1][0] == "adt" and f[1][1].endswith("::Vec") and f[1][2][0] == ("bool",)][0]
    for rule in [x[0] for x in F.adt("DateGenerationRule")["vs"]]:
        for unit in [x[0] for x in F.adt("TimeUnit")["vs"]]:
            ov = {F.one("adjust", "Calendar").key: lambda E, s, a, site, subst: [(s, D(F, adj(E, s, a[0], B.serial(E, s, a[1]), a[2])))]}
            B = Build(ck, rule, unit, length=None if rule == "Zero" else 0, overrides=ov)

            def month_end(E, s, a, site, subst):
                if s.store.truth(cmp("==", B.serial(E, s, a[1]) - DEFAULT, True)) is not True:
                    raise Imprecise("month end of another date than the null date")
                return [(s, FALSE)]
            B.E.overrides[eom.key] = month_end
            E, st = B.E, B.st
            if rule == "Zero":
                st.store = st.store.refine(B.len, drange(0, None))
            syms = B.syms

            def build(q):
                """(dates) or PANIC"""
                if B.reject(q):
                    return PANIC
                eff = B.eff
                if q.eq(eff, DEFAULT):
                    # far enough back for a placeholder: a whole number of years before the termination date
                    same = not q.eq(B.ntl, DEFAULT) and q.eq(B.ntl, B.term)
                    back = B.ntl if same else B.term
                    eff = addm(back, (iexpr("idiv", back - B.ev, const(366)) + 1) * -12)
                    # (going back does not lead beyond the date started from)
                    if q.lt(eff, MIN_SERIAL) or q.gt(eff, MAX_SERIAL) or q.ge(eff, back) or not q.eq(B.ntl, DEFAULT) and not same:
                        return PANIC
                d0, d1 = adj(E, q.st, syms["calendar"], eff, syms["convention"]), B.term
                if not q.eq(E.discr_of(syms["last"]), unadjusted):
                    d1 = adj(E, q.st, syms["calendar"], d1, syms["last"])
                return PANIC if q.ge(d0, d1) else (d0, d1)

            key = "%s:%s" % (rule, unit)

            def want(q, f):
                r = build(q)
                return f(q, r) if isinstance(r, tuple) else r

            def field(E_, s, v, m):
                if m == "regularity":
                    return seq_of(E_, s, E_.proj_field(v, None, flags, s))
                rs = quiet(E_, F.one(m, "Schedule"), [ref(E_, s, v)], s)
                if len(rs) != 1:
                    raise Imprecise("Schedule::%s has %d results" % (m, len(rs)))
                x = rs[0].value
                x = E_.read(rs[0].state, x.cell, x.path) if isinstance(x, Ref) else x
                return seq_of(E_, s, x) if m == "dates" else x
            zero = Agg("adt", F.adt_ty("Period")[1], 0, tuple(ZERO if f[0] == "length" else variant(F, "TimeUnit", "Years") for f in F.adt("Period")["vs"][0][2]))
            parts = (("dates", lambda q, r: mk("vecof", date_term(r[0]), date_term(r[1]))), ("regularity", lambda q, r: mk("vecof", TRUE)), ("tenor", lambda q, r: zero),
                     ("calendar", lambda q, r: syms["calendar"]), ("business_day_convention", lambda q, r: syms["convention"]), ("end_of_month", lambda q, r: TRUE if B.month_ends(q) else FALSE))
            ck.verify(key, B.fn, B.args, lambda q: want(q, lambda q, r: Agg("tuple", "", 0, tuple(f(q, r) for _, f in parts))), E, st,
                      value=lambda E_, s, v: Agg("tuple", "", 0, tuple(field(E_, s, v, m) for m, _ in parts)))
            ck.count("rule and unit combinations")
    ck.floor("combinations", ck.counts.get("rule and unit combinations", 0), 40)
