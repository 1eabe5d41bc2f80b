"""Cash flows, coupons and legs"""
from run import *
from dates import *
from dates_core import ref, TRUST
from models import rpow, fexp, fln
from loops import ite, ind, sum_, iter_, prod_, first_, concat_, mapvec_
from rates import Rates, COMP, freqs, compound, variant

CF, CPN = "CashFlow", "Coupon"
DEFAULT = 2   # serial of Date::default()


def trait_key(F, name):
    ks = [k for k in F.traits if k.endswith("::" + name)]
    if len(ks) != 1:
        raise mir.Missing("trait " + name)
    return ks[0]


def methods(F, trait):
    return F.traits[trait_key(F, trait)]["methods"]


def method(E, F, selfty, trait, m):
    """(function, substitution) that a call of trait method m on type selfty runs; function None: unknown implementor"""
    tk = trait_key(F, trait)
    key = [x["key"] for x in methods(F, trait) if x["n"] == m]
    if not key:
        raise mir.Missing("%s::%s" % (trait, m))
    fn, subst = E.resolve(("fn", key[0], key[0], (selfty,), tk, m))
    return fn, subst, key[0]


def implementors(F, trait):
    return [i["selfty"] for i in F.impls_by_trait.get(trait_key(F, trait), ())]


def overridden(F, trait, m):
    """some implementor (other than the smart pointers) provides m itself"""
    for i in F.impls_by_trait.get(trait_key(F, trait), ()):
        if not is_pointer(i["selfty"]) and m in i["methods"]:
            return True
    return False


def provided(F):
    """provided methods that no type of the crate replaces"""
    return {x["key"] for tk, t in F.traits.items() for x in t["methods"] if x["key"] in F.fns and not overridden(F, tk.split("::")[-1], x["n"])}


def is_pointer(t):
    return t[0] == "adt" and t[1].split("::")[-1] in ("Rc", "Arc", "Box") or t[0] == "ref"


DT = lambda F: F.adt_ty("Date")


class Obj:
    """a symbolic implementor of a trait"""

    def __init__(self, ck, E, selfty, name="x"):
        self.ck, self.E, self.F, self.ty = ck, E, ck.F, selfty
        self.st = State()
        self.v = E.sym(name, selfty)
        self.ref = ref(E, self.st, self.v)

    def get(self, trait, m, *args):
        """the value of a method of the object (single result)"""
        fn, subst, key = method(self.E, self.F, self.ty, trait, m)
        if fn is None or fn.intrait and self.ty[0] == "param":
            rty = tsubst_self(self.F, key, self.ty)
            r = self.E.opaque_call(self.st, key, [self.ref] + list(args), rty)
            return r[0][1]
        rs = self.E.run(fn, [self.ref] + list(args), self.st.copy(), subst)
        if len(rs) != 1:
            raise Imprecise("%s has %d results" % (key, len(rs)))
        return rs[0].value

    def serial(self, trait, m):
        return serial_of(self.E, self.st, self.get(trait, m))


def tsubst_self(F, key, ty):
    return None


def sample(fn, E, st, F, pre="a"):
    """symbolic arguments for the parameters of fn after self"""
    out = []
    for i in range(2, fn.body.argc + 1):
        t = fn.body.locals[i]
        n = "%s%d" % (pre, i)
        if t[0] == "ref":
            v = D(F, var(n, "int", MIN_SERIAL, MAX_SERIAL)) if t[1] == DT(F) else E.sym(n, t[1])
            out.append(ref(E, st, v))
        elif t == DT(F):
            out.append(D(F, var(n, "int", MIN_SERIAL, MAX_SERIAL)))
        else:
            out.append(E.sym(n, t))
    return out


def sig(F, trait, m):
    """parameter and return types of a trait method, from any implementation"""
    for i in F.impls_by_trait.get(trait_key(F, trait), ()):
        k = i["methods"].get(m)
        if k and k in F.fns:
            return F.fns[k]
    for x in methods(F, trait):
        if x["n"] == m and x["key"] in F.fns:
            return F.fns[x["key"]]
    raise mir.Missing("%s::%s" % (trait, m))


@check("F01")
def f01(ck):
    """smart pointers forward every method"""
    F = ck.F
    ck.explanation = ("enumeration of every implementation of a crate trait for a smart pointer or reference to T; each trait method called on the pointer is abstractly interpreted with the methods of T "
                      "uninterpreted: it must give exactly what the same call on T gives (for provided methods no type overrides, the provided body on T)")
    ck.assumptions = ["the methods of T are functions of the object and their arguments"] + TRUST
    n = 0
    for tk in sorted(F.traits):
        trait = tk.split("::")[-1]
        for imp in F.impls_by_trait.get(tk, ()):
            sty = imp["selfty"]
            if not is_pointer(sty):
                continue
            inner = sty[1] if sty[0] == "ref" else sty[2][0]
            if inner[0] != "param":
                continue
            ck.count("pointer implementations")
            for x in F.traits[tk]["methods"]:
                m = x["n"]
                n += 1
                E = ck.engine(opaque={F.one("year_fraction", "DayCounter").key, F.one("day_count", "DayCounter").key})
                E.provided = provided(F)
                st = State()
                pv = E.sym("ptr", sty)
                obj = pv if sty[0] == "ref" else Ref(("S", pv.t, inner))
                fn, subst, key = method(E, F, sty, trait, m)
                if fn is None:
                    ck.ob("%s::%s" % (trait, m), False, "no code for %s::%s on %s" % (trait, m, tystr(sty)))
                    continue
                sg = sig(F, trait, m)
                args = sample(sg, E, st, F)
                me = ref(E, st, pv)
                E.panics = []
                rs = ck.run(E, fn, [me] + args, st, subst, key="%s::%s" % (trait, m))
                if rs is None:
                    continue
                forward = lambda s: E.opaque_call(s, key, [obj] + args, tsubst(sg.body.locals[0], {}))[0][1]
                good = all(same_result(E, x.state, x.value, forward(x.state)) for x in rs) and not E.panics
                # a provided method that no type replaces may also run on the pointer itself
                if not good and key in F.fns and not overridden(F, trait, m):
                    good = equivalent(E, rs, list(E.panics), F.fns[key], [obj] + args, {"Self": inner})
                ck.ob("%s::%s" % (trait, m), good, "%s::%s on %s does not give what it gives on the object it points to (%s)" % (trait, m, tystr(sty), fn.nice()), fn.nice())
    ck.floor("pointer implementations", ck.counts.get("pointer implementations", 0), 2)
    ck.floor("methods", n, 15)


def same_result(E, st, a, b):
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a == b or E.term(st, a) == E.term(st, b)
    return val_eq(E, st, a, b)


def equivalent(E, rs, pans, fn, args, subst):
    """another function gives the same results (and panics) on every path of the first"""
    try:
        for x in rs:
            E.panics = []
            ys = E.run(fn, args, x.state.copy(), subst)
            if E.panics or not all(same_result(E, y.state, x.value, y.value) for y in ys):
                return False
        for p in pans:
            if E.run(fn, args, p.state.copy(), subst):
                return False
    except (Imprecise, NeedSplit, NeedAssume):
        return False
    return True


# ---- fixed rate coupons --------------------------------------------------------------------------------

def option(E, v):
    """Some(v) / None"""
    return Agg("adt", "core::option::Option", 0 if v is None else 1, () if v is None else (v,))


class Coupon_:
    """a FixedRateCoupon built by one of its constructors"""

    def __init__(self, ck, how, given):
        F = self.F = ck.F
        self.ck = ck
        self.yf, self.dcount = F.one("year_fraction", "DayCounter"), F.one("day_count", "DayCounter")
        self.cfb = F.one("compound_factor_between_dates", "InterestRate")
        self.how = how
        self.E = E = ck.engine(opaque={self.yf.key, self.dcount.key} | ({self.cfb.key} if how == "with_interest_rate" else set()))
        E.provided = provided(F)
        self.st = st = State()
        d = lambda n: var(n, "int", MIN_SERIAL, MAX_SERIAL)
        self.pay, self.start, self.end = d("pay"), d("start"), d("end")
        self.nominal = var("nominal", "real")
        self.opt = {}
        opts = []
        for n in ("rs", "re", "ex"):
            v = d(n) if n in given else None
            self.opt[n] = P(v) if v is not None else const(DEFAULT)
            opts.append(option(E, D(F, v) if v is not None else None))
        if how == "new":
            self.r = var("r", "real")
            self.dc = E.sym("dc", F.adt_ty("DayCounter"))
            mid = [P(self.r), self.dc]
        else:
            self.ir = E.sym("ir", F.adt_ty("InterestRate"))
            mid = [self.ir]
        E.panics = []
        xs = ck.run(E, F.one(how, "FixedRateCoupon"), [D(F, self.pay), P(self.nominal)] + mid + [D(F, self.start), D(F, self.end)] + opts, st, key="constructor:" + how)
        self.ok = bool(xs) and len(xs) == 1 and not E.panics
        if self.ok:
            self.st = xs[0].state.copy()
            self.me = ref(E, self.st, xs[0].value)
            self.ty = F.adt_ty("FixedRateCoupon")
            if how != "new":
                ix = [f[0] for f in F.adt("InterestRate")["vs"][0][2]].index("daycounter")
                self.dc = E.value_of(mk("fld", self.ir.t, 0, ix), F.adt_ty("DayCounter"))

    def call(self, fn, *vs):
        """opaque call; serials become dates"""
        E, st = self.E, self.st.copy()
        a = [ref(E, st, D(self.F, v) if isinstance(v, (Poly, T)) else v) for v in vs]
        return E.opaque_call(st, fn.key, a, fn.body.locals[0])[0][1]

    def interest(self, q, a, b):
        """interest between two dates; compounding backwards is rejected (R01)"""
        o = self.opt
        if self.how == "new":
            y = self.call(self.yf, self.dc, P(a), P(b), o["rs"], o["re"])
            return PANIC if q.lt(b, a) or q.lt(y, 0) else P(self.nominal) * P(self.r) * y
        return P(self.nominal) * (self.call(self.cfb, self.ir, P(a), P(b), o["rs"], o["re"]) - 1)

    def verify(self, name, trait, m, args, spec, **kw):
        self.E.panics = []
        fn, subst, key = method(self.E, self.F, self.ty, trait, m)
        if fn is None:
            return self.ck.ob(name, False, "no code for %s::%s" % (trait, m))
        return self.ck.verify(name, fn, [self.me] + args, spec, self.E, self.st, subst=subst, **kw)


@check("F02")
def f02(ck):
    """fixed rate coupons"""
    F = ck.F
    ck.explanation = ("MIR abstract interpretation of FixedRateCoupon built by each constructor, with and without reference period and ex-coupon date: amount and accruals of an arbitrary coupon at an arbitrary "
                      "date; day counts, year fractions and compound factors uninterpreted")
    ck.assumptions = ["compound factors between dates: R01", "day counters: functions of their arguments", "real arithmetic for f64"] + TRUST
    x = var("x", "int", MIN_SERIAL, MAX_SERIAL)
    Dx = D(F, x)
    for how in ("new", "with_interest_rate"):
        for given in ((), ("rs", "re"), ("rs", "re", "ex")):
            k = "%s(%s):" % (how, ",".join(given))
            c = Coupon_(ck, how, given)
            if not c.ok:
                ck.ob(k + "constructor", False, "FixedRateCoupon::%s does not return exactly one coupon" % how)
                continue
            ser = lambda E, s, v: serial_of(E, s, v)
            o = c.opt
            for trait, m, want in ((CF, "date", c.pay), (CF, "accrual_start_date", c.start), (CF, "accrual_end_date", c.end), (CF, "reference_period_start", o["rs"]),
                                   (CF, "reference_period_end", o["re"]), (CF, "ex_coupon_date", o["ex"])):
                c.verify(k + m, trait, m, [], lambda q: P(want), value=ser)
            c.verify(k + "nominal", CPN, "nominal", [], lambda q: P(c.nominal))
            irf = [f[0] for f in F.adt("InterestRate")["vs"][0][2]].index("rate")
            c.verify(k + "rate", CPN, "rate", [], lambda q: P(c.r) if how == "new" else c.E.value_of(mk("fld", c.ir.t, 0, irf), ("float", 64)))
            c.verify(k + "amount", CF, "amount", [], lambda q: c.interest(q, c.start, c.end))
            out = lambda q: q.le(x, c.start) or q.gt(x, c.pay)
            ex = lambda q: "ex" in given and not q.eq(o["ex"], DEFAULT) and q.le(o["ex"], x)
            lo = lambda q: P(x) if q.le(x, c.end) else P(c.end)
            hi = lambda q: P(c.end) if q.le(x, c.end) else P(x)

            def accrued(q):
                if out(q):
                    return ZERO
                if ex(q):
                    v = c.interest(q, x, hi(q))
                    return v if v is PANIC else -v
                return c.interest(q, c.start, lo(q))
            c.verify(k + "accrued_amount", CF, "accrued_amount", [Dx], accrued)

            def period(q):
                if out(q):
                    return ZERO
                if ex(q):
                    return -c.call(c.yf, c.dc, P(x), hi(q), o["rs"], o["re"])
                return c.call(c.yf, c.dc, P(c.start), lo(q), o["rs"], o["re"])
            c.verify(k + "accrued_period", CPN, "accrued_period", [Dx], period)
            c.verify(k + "accrued_days", CPN, "accrued_days", [Dx], lambda q: ZERO if out(q) else c.call(c.dcount, c.dc, P(c.start), lo(q)))
            c.verify(k + "accrual_days", CPN, "accrual_days", [], lambda q: c.call(c.dcount, c.dc, P(c.start), P(c.end)))
            c.verify(k + "accrual_period", CPN, "accrual_period", [], lambda q: c.call(c.yf, c.dc, P(c.start), P(c.end), o["rs"], o["re"]))
            ck.count("coupons")
    ck.floor("coupons", ck.counts.get("coupons", 0), 6)



# ---- occurrence ----------------------------------------------------------------------------------------

PLAIN = ("SimpleCashFlow", "Redemption", "AmortizingPayment")


@check("F03")
def f03(ck):
    """occurrence, ex-coupon trading and plain flows"""
    F = ck.F
    ck.explanation = ("MIR abstract interpretation, for every implementor of CashFlow (and an arbitrary unknown one): has_occurred against the flow's own date, trading_ex_coupon against its own ex-coupon date; "
                      "plain flows built by their constructors pay exactly their amount on their date and never accrue")
    ck.assumptions = ["the methods of an unknown implementor are functions of the object"] + TRUST
    x = var("x", "int", MIN_SERIAL, MAX_SERIAL)
    Dx = D(F, x)
    inc = cmp("==", var("inc", "int", 0, 1) - 1, True)
    types = [t for t in implementors(F, CF)] + [("param", "T")]
    for t in types:
        nm = tystr(t)
        E = ck.engine()
        prov = provided(F)
        E.provided = prov
        st = State()
        v = E.sym("flow", t)
        me = ref(E, st, v)

        def own(m):
            """the flow's own date"""
            fn, subst, key = method(E, F, t, CF, m)
            if fn is None:
                return serial_of(E, st, E.opaque_call(st, key, [me], DT(F))[0][1])
            rs = E.run(fn, [me], st.copy(), subst)
            return serial_of(E, rs[0].state, rs[0].value)

        def prove(m, args, spec):
            fn, subst, key = method(E, F, t, CF, m)
            if fn is None:
                if key not in prov:
                    return          # not decided here: an implementation of its own is analysed with its type
                fn, subst = F.fns[key], {"Self": t}
            E.panics = []
            ck.verify("%s:%s" % (nm, m), fn, [me] + args, spec, E, st, subst=subst)
        try:
            d, e = own("date"), own("ex_coupon_date") if t[0] != "param" else var("ecd", "int", MIN_SERIAL, MAX_SERIAL)
            if t[0] == "param":
                k = method(E, F, t, CF, "ex_coupon_date")[2]
                E.provided = prov - {k}
                e = serial_of(E, st, E.opaque_call(st, k, [me], DT(F))[0][1])
        except (Imprecise, NeedSplit, NeedAssume) as err:
            ck.ob(nm + ":date", False, "cannot decide the date of %s: %s" % (nm, err))
            continue
        prove("has_occurred", [ref(E, st, Dx), inc], lambda q: (TRUE if q.lt(d, x) else FALSE) if q(inc) else (TRUE if q.le(d, x) else FALSE))
        prove("trading_ex_coupon", [Dx], lambda q: FALSE if q.eq(e, DEFAULT) else TRUE if q.le(e, x) else FALSE)
        ck.count("implementors")
    ck.floor("implementors", ck.counts.get("implementors", 0), 6)

    amount, d = var("amount", "real"), var("d", "int", MIN_SERIAL, MAX_SERIAL)
    ser = lambda E, s, v: serial_of(E, s, v)
    for name in PLAIN:
        E = ck.engine()
        E.provided = provided(F)
        E.panics = []
        r = ck.run(E, F.one("new", name), [P(amount), D(F, d)], State(), key="new:" + name)
        if not r or len(r) != 1 or E.panics:
            ck.ob("new:" + name, False, "%s::new does not simply build the flow" % name)
            continue
        st = r[0].state.copy()
        me, t = ref(E, st, r[0].value), F.adt_ty(name)
        for m, args, want, val in (("amount", [], P(amount), None), ("date", [], P(d), ser), ("accrued_amount", [Dx], ZERO, None), ("accrual_start_date", [], const(DEFAULT), ser),
                                   ("accrual_end_date", [], const(DEFAULT), ser), ("reference_period_start", [], const(DEFAULT), ser), ("reference_period_end", [], const(DEFAULT), ser),
                                   ("trading_ex_coupon", [Dx], FALSE, None)):
            fn, subst, key = method(E, F, t, CF, m)
            E.panics = []
            ck.verify("%s:%s" % (name, m), fn, [me] + args, lambda q: want, E, st, subst=subst, value=val)
        ck.count("plain flows")
    ck.floor("plain flows", ck.counts.get("plain flows", 0), 3)


# ---- legs ----------------------------------------------------------------------------------------------

class Leg:
    """a leg of arbitrary length of arbitrary flows"""

    def __init__(self, ck, fn, opaque=(), param=1):
        F = self.F = ck.F
        self.ck = ck
        self.E = E = ck.engine(opaque=set(opaque))
        self.st = st = State()
        self.T = ("param", "T")
        t = fn.body.locals[param]
        self.leg = E.sym("leg", t[1])
        self.ref = ref(E, st, self.leg)
        self.n = P(mk("len", self.leg.t, sort="int"))
        r = st.store.refine(self.n, drange(0, 2 ** 63 - 1))
        if r is not None:
            st.store = r
        self.prov = provided(F)
        # occurrence and ex-coupon trading of a flow, as decided in F03
        for m, f in (("has_occurred", self._occ), ("trading_ex_coupon", self._ex)):
            k = self.key(CF, m)
            if k in self.prov:
                E.provided = E.provided | {k}
                E.overrides[k] = f

    def key(self, trait, m):
        return [x["key"] for x in methods(self.F, trait) if x["n"] == m][0]

    def _occ(self, E, s, args, site, subst):
        return [(s, self.occurred_at(self.date_of(s, args[0]), serial_of(E, s, E.read(s, args[1].cell, args[1].path)), args[2]))]

    def _ex(self, E, s, args, site, subst):
        return [(s, self.ex_at(serial_of(E, s, self.opq(s, CF, "ex_coupon_date", args[0])), serial_of(E, s, args[1])))]

    def opq(self, s, trait, m, me, *args):
        return self.E.opaque_call(s, self.key(trait, m), [me] + list(args), sig(self.F, trait, m).body.locals[0])[0][1]

    def date_of(self, s, me):
        return serial_of(self.E, s, self.opq(s, CF, "date", me))

    @staticmethod
    def occurred_at(d, x, inc):
        d, x = P(d), P(x)
        if inc is TRUE or inc is FALSE:
            return cmp("<" if inc is TRUE else "<=", d - x, True)
        return bor(cmp("<", d - x, True), band(bnot(inc), cmp("==", d - x, True)))

    @staticmethod
    def ex_at(e, x):
        return band(cmp("!=", P(e) - DEFAULT, True), cmp("<=", P(e) - P(x), True))

    def el(self, k):
        return ref(self.E, self.st, self.E.value_of(mk("elem", self.leg.t, P(k)), self.T))

    def get(self, trait, m, k, *args):
        return self.opq(self.st, trait, m, self.el(k), *args)

    def serial(self, trait, m, k):
        return serial_of(self.E, self.st, self.get(trait, m, k))

    def occurred(self, k, x, inc):
        if self.key(CF, "has_occurred") in self.prov:
            return self.occurred_at(self.serial(CF, "date", k), x, inc)
        return self.get(CF, "has_occurred", k, ref(self.E, self.st, D(self.F, P(x))), inc)

    def ex(self, k, x):
        if self.key(CF, "trading_ex_coupon") in self.prov:
            return self.ex_at(self.serial(CF, "ex_coupon_date", k), x)
        return self.get(CF, "trading_ex_coupon", k, D(self.F, P(x)))

    def next(self, x, inc):
        """index of the first flow that has not occurred, or the length"""
        return first_(lambda k: bor(cmp("<=", self.n - k, True), bnot(self.occurred(k, x, inc))))


INC = lambda: cmp("==", var("inc", "int", 0, 1) - 1, True)


def leg_fn(F, name, mod="cashflow"):
    fs = [f for f in F.find(name, None, None) if f.self_ty is None and not f.intrait and f.key.split("::")[-2] == mod]
    if len(fs) != 1:
        raise mir.Missing("function %s::%s" % (mod, name))
    return fs[0]


def leg_queries(ck, F, x, Dx, inc):
    k = "%s settlement flows:" % ("with" if inc is TRUE else "without")
    fn = leg_fn(F, "next_cashflow")
    L = Leg(ck, fn)
    i = L.next(x, inc)
    ck.verify(k + "next_cashflow", fn, [L.ref, inc, Dx], lambda q: option(L.E, i) if q.lt(i, L.n) else option(L.E, None), L.E, L.st)

    fn = leg_fn(F, "accrued_amount")
    L = Leg(ck, fn)
    i = L.next(x, inc)
    same = lambda j: cmp("==", L.serial(CF, "date", i) - L.serial(CF, "date", i + j), True)
    ck.verify(k + "accrued_amount", fn, [L.ref, inc, Dx],
              lambda q: sum_(L.n - i, lambda j: ind(same(j)) * P(L.get(CF, "accrued_amount", i + j, Dx))) if q.lt(i, L.n) else ZERO, L.E, L.st)
    for name in ("accrued_days", "accrued_period"):
        fn = leg_fn(F, name)
        L = Leg(ck, fn)
        i = L.next(x, inc)
        ck.verify(k + name, fn, [L.ref, inc, Dx], lambda q: L.get(CPN, name, i, Dx) if q.lt(i, L.n) else ZERO, L.E, L.st)


@check("F04")
def f04(ck):
    """leg queries"""
    F = ck.F
    ck.explanation = ("MIR abstract interpretation of the leg queries for a leg of arbitrary length and arbitrary flows: searches become least-index terms, accumulations sums and recurrences; compared with the definitions")
    ck.assumptions = ["occurrence of a flow: F03", "the methods of an unknown flow are functions of the flow"] + TRUST
    x = var("x", "int", MIN_SERIAL, MAX_SERIAL)
    Dx = D(F, x)
    for inc in (TRUE, FALSE):
        leg_queries(ck, F, x, Dx, inc)
    ser = lambda E, s, v: serial_of(E, s, v)
    for mod in ("cashflow", "bondfunctions"):
        fn = leg_fn(F, "maturity_date", mod)
        L = Leg(ck, fn)

        def latest(m):
            f = lambda k, p: (lambda e: ite(cmp("<", p - e, True), e, p))(L.serial(CF, m, k))
            return iter_(L.n, const(DEFAULT), f)

        def mat(q):
            if q.le(L.n, 0):
                return PANIC
            e = latest("accrual_end_date")
            return latest("date") if q.eq(e, DEFAULT) else e
        ck.verify(mod + "::maturity_date", fn, [L.ref], mat, L.E, L.st, value=lambda E, s, v: serial_of(E, s, v))
    # bond functions: flows on the settlement date are excluded, amounts per 100 of notional
    fn = leg_fn(F, "accrued_amount", "bondfunctions")
    acc = leg_fn(F, "accrued_amount")
    L = Leg(ck, fn, opaque={acc.key})
    notional = var("notional", "real")
    ck.verify("bondfunctions::accrued_amount", fn, [L.ref, P(notional), Dx],
              lambda q: P(L.E.opaque_call(L.st, acc.key, [L.ref, FALSE, Dx], ("float", 64))[0][1]).scale(100) * P(notional).inv(), L.E, L.st)
    for name in ("accrued_days", "accrued_period"):
        fn, inner = leg_fn(F, name, "bondfunctions"), leg_fn(F, name)
        L = Leg(ck, fn, opaque={inner.key})
        ck.verify("bondfunctions::" + name, fn, [L.ref, Dx], lambda q: L.E.opaque_call(L.st, inner.key, [L.ref, FALSE, Dx], inner.body.locals[0])[0][1], L.E, L.st)
    ck.floor("obligations", ck.obl, 20)


class Priced(Leg):
    """a leg discounted flow by flow"""

    def __init__(self, ck, fn, ir=None, st=None, opaque=()):
        F = ck.F
        self.df = F.one("discount_factor", "InterestRate")
        Leg.__init__(self, ck, fn, opaque=set(opaque) | {self.df.key})
        self.settle, self.npvd = (var(n, "int", MIN_SERIAL, MAX_SERIAL) for n in ("settle", "npvdate"))
        self.ir = self.E.sym("ir", F.adt_ty("InterestRate"))
        self.irref = ref(self.E, self.st, self.ir)

    def daycounter(self):
        F = self.F
        ix = [f[0] for f in F.adt("InterestRate")["vs"][0][2]].index("daycounter")
        return ref(self.E, self.st, self.E.value_of(mk("fld", self.ir.t, 0, ix), F.adt_ty("DayCounter")))

    def start(self, q):
        return P(self.settle) if q.eq(self.npvd, DEFAULT) else P(self.npvd)

    def pend(self, k, inc):
        return bnot(self.occurred(k, self.settle, inc))

    def paid(self, k, inc):
        """the flow is still to be paid to the holder"""
        return band(self.pend(k, inc), bnot(self.ex(k, self.settle)))

    def last(self, k, start, inc):
        """date the discounting of flow k starts from: that of the pending flow before it"""
        return iter_(k, start, lambda j, p: ite(self.pend(j, inc), self.serial(CF, "date", j), p))

    def step(self, k, start, inc):
        """time from there to flow k"""
        return P(self.get(CF, "get_stepwise_discount_time", k, self.daycounter(), D(self.F, P(start)), D(self.F, self.last(k, start, inc))))

    def factor(self, t):
        return P(self.E.opaque_call(self.st, self.df.key, [self.irref, P(t)], ("float", 64))[0][1])

    def npv(self, start, inc):
        f = lambda k: self.factor(self.step(k, start, inc))
        disc = lambda k: prod_(k, lambda j: ite(self.pend(j, inc), f(j), ONE))
        return sum_(self.n, lambda k: ind(self.paid(k, inc)) * P(self.get(CF, "amount", k)) * disc(k) * f(k))


@check("F05")
def f05(ck):
    """net present value of a leg"""
    F = ck.F
    ck.explanation = ("MIR abstract interpretation of the net present value of a leg of arbitrary length and flows: the loop becomes a sum of amounts times a recurrence of stepwise discount factors, compared with the "
                      "definition; discount factors, stepwise times and the flows themselves are uninterpreted")
    ck.assumptions = ["discount factors: R01", "stepwise times: F07", "occurrence and ex-coupon trading: F03", "real arithmetic for f64"] + TRUST
    fn = leg_fn(F, "npv")
    for inc in (TRUE, FALSE):
        L = Priced(ck, fn)
        ck.verify("npv(%s)" % ("with settlement flows" if inc is TRUE else "without"), fn, [L.ref, L.irref, inc, D(F, L.settle), D(F, L.npvd)],
                  lambda q: ZERO if q.le(L.n, 0) else L.npv(L.start(q), inc), L.E, L.st)
    fn, inner = leg_fn(F, "dirty_price", "bondfunctions"), leg_fn(F, "npv")
    E = ck.engine(opaque={inner.key})
    st = State()
    leg = ref(E, st, E.sym("leg", fn.body.locals[2][1]))
    ir = ref(E, st, E.sym("ir", F.adt_ty("InterestRate")))
    s, n = var("settle", "int", MIN_SERIAL, MAX_SERIAL), var("notional", "real")
    dates_ = lambda d: P(E.opaque_call(st, inner.key, [leg, ir, FALSE, D(F, s), D(F, d)], ("float", 64))[0][1]).scale(100) * P(n).inv()
    # from the settlement date, given or defaulted
    ck.verify("dirty_price", fn, [P(n), leg, ir, D(F, s)], lambda q: dates_(const(DEFAULT)), E, st,
              eq=lambda E_, s_, a, b: val_eq(E_, s_, a, b) or val_eq(E_, s_, a, dates_(s)))
    ck.floor("obligations", ck.obl, 4)


@check("F06")
def f06(ck):
    """modified duration"""
    F = ck.F
    ck.explanation = ("MIR abstract interpretation of the modified duration of a leg of arbitrary length and flows for every compounding and frequency: the accumulated loop is compared with minus the derivative of the "
                      "present value with respect to the yield, over the present value")
    ck.assumptions = ["discount factors: R01", "stepwise times: F07", "occurrence and ex-coupon trading: F03", "real arithmetic for f64"] + TRUST
    fn = leg_fn(F, "modified_duration")
    for comp in COMP:
        for freq, f in freqs(F):
            if comp in ("Simple", "Continuous") and freq not in ("Annual", "Monthly"):
                continue
            if comp not in ("Simple", "Continuous") and freq in ("Once", "NoFrequency"):
                continue
            for inc in (TRUE, FALSE):
                if inc is TRUE and freq != "Semiannual":
                    continue
                L = Priced(ck, fn)
                E = L.E
                r = var("r", "real")
                E.panics = []
                xs = ck.run(E, F.one("new", "InterestRate"), [P(r), E.sym("dc", F.adt_ty("DayCounter")), variant(F, "Compounding", comp), variant(F, "Frequency", freq)], L.st.copy(),
                            key="new:%s:%s" % (comp, freq))
                if not xs:
                    continue
                L.st = xs[0].state.copy()
                L.irref = ref(E, L.st, xs[0].value)
                dc = ref(E, L.st, E.sym("dc", F.adt_ty("DayCounter")))
                L.daycounter = lambda: dc

                def spec(q):
                    if q.le(L.n, 0):
                        return ZERO
                    s = L.start(q)
                    # from the valuation date to a pending flow: its own step and those before
                    time = lambda k: L.step(k, s, inc) + sum_(k, lambda j: ind(L.pend(j, inc)) * L.step(j, s, inc))
                    # minus the derivative of the discount factor
                    simple = lambda t, b: t * b * b
                    power = lambda t, b: t * b * (P(r).scale(Fraction(1, f)) + 1).inv()

                    def slope(t, b):
                        if comp == "Simple":
                            return simple(t, b)
                        if comp == "Continuous":
                            return t * b
                        if comp == "Compounded":
                            return power(t, b)
                        x, y = (simple(t, b), power(t, b)) if comp == "SimpleThenCompounded" else (power(t, b), simple(t, b))
                        return ite(cmp("<=", t - Fraction(1, f), False), x, y)
                    amount = lambda k: ind(L.paid(k, inc)) * P(L.get(CF, "amount", k))
                    price = sum_(L.n, lambda k: amount(k) * L.factor(time(k)))
                    if q.eq(price, 0):
                        return ZERO
                    return sum_(L.n, lambda k: amount(k) * slope(time(k), L.factor(time(k)))) * price.inv()
                ck.verify("%s:%s:%s" % (comp, freq, "with" if inc is TRUE else "without"), fn, [L.ref, L.irref, inc, D(F, L.settle), D(F, L.npvd)], spec, E, L.st)
                ck.count("conventions")
    ck.floor("conventions", ck.counts.get("conventions", 0), 20)


@check("F07")
def f07(ck):
    """time between discounting steps"""
    F = ck.F
    ck.explanation = ("MIR abstract interpretation of the stepwise discount time of an arbitrary cash flow, of a fixed-rate coupon and of the plain flows, from an arbitrary last date and valuation date: year fractions "
                      "are uninterpreted, the dates they are taken between and the reference period they are given are compared with the definition")
    ck.assumptions = ["day counters: functions of their arguments", "Date minus a period: D10", "real arithmetic for f64"] + TRUST
    npv, last = (var(n, "int", MIN_SERIAL, MAX_SERIAL) for n in ("npv", "last"))

    def time(q, yf, pay, rs, re, start):
        if q.eq(rs, DEFAULT) and q.eq(re, DEFAULT):
            re, rs = pay, P(last)
            if q.eq(last, npv):
                rs = P(addm(pay, const(-12)))
                if q.lt(rs, MIN_SERIAL) or q.gt(rs, MAX_SERIAL):
                    return PANIC
        if not q.eq(start, DEFAULT) and not q.eq(last, start):
            return yf(start, pay, rs, re) - yf(start, last, rs, re)
        return yf(last, pay, rs, re)
    yfn = F.one("year_fraction", "DayCounter")

    def yfs(E, st, dc):
        def yf(*ds):
            s = st.copy()
            return P(E.opaque_call(s, yfn.key, [dc] + [ref(E, s, D(F, P(d))) for d in ds], ("float", 64))[0][1])
        return yf
    # any implementor that keeps the provided method
    L = Leg(ck, leg_fn(F, "npv"), opaque={yfn.key})
    E, st, k = L.E, L.st, var("k", "int", 0, 10 ** 6)
    dc = ref(E, st, E.sym("dc", F.adt_ty("DayCounter")))
    key = L.key(CF, "get_stepwise_discount_time")
    if key in F.fns:
        el = L.el(k)
        g = lambda m: L.serial(CF, m, k)
        ck.verify("provided method", F.fns[key], [el, dc, D(F, npv), D(F, last)],
                  lambda q: time(q, yfs(E, st, dc), g("date"), g("reference_period_start"), g("reference_period_end"), g("accrual_start_date")), E, st, subst={"Self": L.T})
        ck.count("implementors")
    # fixed-rate coupons
    for given in ((), ("rs", "re")):
        c = Coupon_(ck, "with_interest_rate", given)
        if not c.ok:
            ck.ob("constructor", False, "construction of a coupon is undecided or may panic")
            continue
        d2 = ref(c.E, c.st, c.E.sym("dc2", F.adt_ty("DayCounter")))
        c.verify("FixedRateCoupon(%s)" % ", ".join(given), CF, "get_stepwise_discount_time", [d2, D(F, npv), D(F, last)],
                 lambda q: time(q, yfs(c.E, c.st, d2), P(c.pay), c.opt["rs"], c.opt["re"], P(c.start)))
        ck.count("implementors")
    # plain flows
    E = ck.engine(opaque={yfn.key})
    E.provided = provided(F)
    for name in ("SimpleCashFlow", "Redemption"):
        ms = [i for i in implementors(F, CF) if i[0] == "adt" and i[1].split("::")[-1] == name]
        if not ms:
            continue
        st = State()
        pay = var("pay", "int", MIN_SERIAL, MAX_SERIAL)
        E.panics = []
        xs = ck.run(E, F.one("new", name), [P(var("amount", "real")), D(F, pay)], st, key="new:" + name)
        if not xs:
            continue
        st = xs[0].state.copy()
        me = ref(E, st, xs[0].value)
        d2 = ref(E, st, E.sym("dc", F.adt_ty("DayCounter")))
        fn, subst, key = method(E, F, ms[0], CF, "get_stepwise_discount_time")
        ck.verify(name, fn, [me, d2, D(F, npv), D(F, last)], lambda q: time(q, yfs(E, st, d2), P(pay), const(DEFAULT), const(DEFAULT), const(DEFAULT)), E, st, subst=subst)
        ck.count("implementors")
    ck.floor("implementors", ck.counts.get("implementors", 0), 4)


# ---- building legs -------------------------------------------------------------------------------------

def quiet(E, fn, args, st):
    """results of a run whose panics do not count"""
    saved = E.panics
    try:
        return E.run(fn, args, st.copy())
    finally:
        E.panics = saved


class Plan:
    """an arbitrary schedule, seen through its accessors"""

    def __init__(self, ck, E, st, name="sch"):
        F = self.F = ck.F
        self.E, self.st = E, st
        self.v = E.sym(name, F.adt_ty("Schedule"))
        self.me = ref(E, st, self.v)
        self.n = P(self.get("size"))
        s = st.store.refine(self.n, drange(2, 2 ** 62))
        # what a constructed schedule satisfies: one regularity flag per period, tenor not negative
        for i, f in enumerate(F.adt("Schedule")["vs"][0][2]):
            t = f[1]
            if t[0] == "adt" and t[1].endswith("::Vec") and t[2][0] == ("bool",):
                s = s.refine(P(mk("len", mk("fld", self.v.t, 0, i), sort="int")) - self.n, dconst(-1))
        length = [i for i, f in enumerate(F.adt("Period")["vs"][0][2]) if f[0] == "length"][0]
        s = s.refine(P(E.proj_field(self.get("tenor"), None, length, st)), drange(0, None))
        st.store = s

    def get(self, m, *args):
        rs = quiet(self.E, self.F.one(m, "Schedule"), [self.me] + list(args), self.st)
        if len(rs) != 1:
            raise Imprecise("Schedule::%s has %d results" % (m, len(rs)))
        v = rs[0].value
        return self.E.read(rs[0].state, v.cell, v.path) if isinstance(v, Ref) else v

    def date(self, k):
        rs = quiet(self.E, self.F.one("index", "Schedule", trait="Index"), [self.me, P(k)], self.st)
        v = rs[0].value
        return self.E.read(rs[0].state, v.cell, v.path)

    def regular(self, k):
        return self.get("is_regular", P(k))


class LegBuild:
    """a FixedRateLeg put together by its constructor and setters"""

    def __init__(self, ck, given):
        F = self.F = ck.F
        self.ck = ck
        self.ir_new, self.freq = F.one("new", "InterestRate"), F.one("frequency", "InterestRate")
        self.adv, self.advp = F.one("advance_by_days", "Calendar"), F.one("advance_by_period", "Calendar")
        self.E = E = ck.engine(opaque={self.adv.key, self.advp.key, self.freq.key}, overrides={self.ir_new.key: self.same_rate})
        self.st = st = State()
        self.plan = Plan(ck, E, st)
        new = F.one("new", "FixedRateLeg")
        self.notionals, self.rates = (E.sym(n, new.body.locals[i]) for i, n in ((2, "notionals"), (3, "rates")))
        E.panics = []
        self.steps = [("new", new, [self.plan.v, self.notionals, self.rates])]
        self.val = {}
        for m in ("with_payment_calendar", "with_payment_adjustment", "with_payment_lag", "with_ex_coupon_period", "with_first_period_daycounter", "with_last_period_daycounter"):
            if m not in given:
                continue
            fn = F.one(m, "FixedRateLeg")
            self.val[m] = [E.sym("%s%d" % (m[5:], i), fn.body.locals[i]) for i in range(2, fn.body.argc + 1)]
            self.steps.append((m, fn, self.val[m]))
        v = None
        self.ok = True
        for m, fn, args in self.steps:
            xs = ck.run(E, fn, ([] if v is None else [v]) + args, self.st, key="builder:" + m)
            if not xs or len(xs) != 1 or E.panics:
                self.ok = ck.ob("builder:" + m, False, "%s is undecided or may panic" % fn.nice())
                return
            self.st, v = xs[0].state.copy(), xs[0].value
        self.leg = v

    def same_rate(self, E, st, args, site, subst):
        """InterestRate::new of the parts of a rate x gives x again, with the day counter given (R01)"""
        ty = self.F.adt_ty("InterestRate")
        names = [f[0] for f in self.F.adt("InterestRate")["vs"][0][2]]
        a = args[0].atom() if isinstance(args[0], Poly) else None
        a = a.args[0] if a is not None and a.op == "ty" else a
        if a is None or not isinstance(a, T) or a.op != "fld":
            return NotImplemented
        x = a.args[0]
        fld = lambda n: E.proj_field(Sym(x, ty), None, names.index(n), st)
        try:
            r = ref(E, st, Sym(x, ty))
            same = E.term(st, args[0]) == E.term(st, fld("rate")) and E.term(st, args[2]) == E.term(st, fld("compounding")) and \
                E.term(st, args[3]) == E.term(st, E.opaque_call(st, self.freq.key, [r], self.freq.body.locals[0])[0][1])
        except (Imprecise, ValueError):
            return NotImplemented
        if not same:
            return NotImplemented
        return [(st, self.with_dc(Sym(x, ty), args[1]))]

    def with_dc(self, x, dc):
        E, st = self.E, self.st
        names = [f[0] for f in self.F.adt("InterestRate")["vs"][0][2]]
        own = E.proj_field(x, None, names.index("daycounter"), st)
        if E.term(st, own) == E.term(st, dc):
            return x
        return Agg("adt", x.ty[1], 0, tuple(dc if n == "daycounter" else E.proj_field(x, None, i, st) for i, n in enumerate(names)))

    def opq(self, fn, *args):
        st = self.st.copy()
        a = [ref(self.E, st, args[0])] + list(args[1:])
        return self.E.opaque_call(st, fn.key, a, fn.body.locals[0])[0][1]

    def last_value(self, vec, k):
        """element k, or the last one for later periods"""
        n = P(mk("len", vec.t, sort="int"))
        e = lambda j: self.E.value_of(mk("elem", vec.t, P(j)), vec.ty[2][0])
        a, b = e(k), e(n - 1)
        c = cmp("<", P(k) - n, True)
        if isinstance(a, Poly):
            return ite(c, a, b)
        return Sym(ite(c, a.t, b.t), a.ty)

    def coupon(self, q, k, first=False, last=False):
        E, F, pl = self.E, self.F, self.plan
        start, end = pl.date(k), pl.date(P(k) + 1)
        given = self.val.get
        lag = given("with_payment_lag", [ZERO])[0]
        conv = given("with_payment_adjustment", [variant(F, "BusinessDayConvention", "Following")])[0]
        pay = self.opq(self.adv, given("with_payment_calendar", [pl.get("calendar")])[0], end, lag, variant(F, "TimeUnit", "Days"), conv, FALSE)
        ex = D(F, DEFAULT)
        tenor = lambda p: quiet(E, F.one("neg", "Period", trait="Neg"), [p], self.st)[0].value
        if given("with_ex_coupon_period"):
            p, cal, cv, eom = given("with_ex_coupon_period")
            ex = self.opq(self.advp, cal, pay, tenor(p), cv, eom)
        move = lambda d, p: self.opq(self.advp, pl.get("calendar"), d, p, pl.get("business_day_convention"), pl.get("end_of_month"))
        rs, re = start, end
        if first and not q(pl.regular(1)):
            rs = move(end, tenor(pl.get("tenor")))
        if last and not q(pl.regular(pl.n - 1)):
            re = move(start, pl.get("tenor"))
        x = self.last_value(self.rates, k)
        if first and given("with_first_period_daycounter"):
            x = self.with_dc(x, given("with_first_period_daycounter")[0])
        if last and given("with_last_period_daycounter"):
            x = self.with_dc(x, given("with_last_period_daycounter")[0])
        o = lambda v: option(E, v)
        r = quiet(E, F.one("with_interest_rate", "FixedRateCoupon"), [pay, self.last_value(self.notionals, k), x, start, end, o(rs), o(re), o(ex)], self.st)
        return E.term(r[0].state, r[0].value)


@check("F08")
def f08(ck):
    """coupons of a fixed-rate leg"""
    F = ck.F
    ck.explanation = ("MIR abstract interpretation of FixedRateLeg::build for a schedule of arbitrary length with arbitrary regularity, arbitrary numbers of notionals and rates, with and without each optional "
                      "setting: the loop becomes a sequence comprehension which is compared, coupon by coupon, with the definition")
    ck.assumptions = ["calendar arithmetic: C09-C12", "interest rates are built by their constructor: R01", "schedules have at least two dates and one regularity flag per period: S02"] + TRUST
    fn = F.one("build", "FixedRateLeg")
    neg = lambda p: None
    for name, given in (("plain", ()), ("payment", ("with_payment_calendar", "with_payment_adjustment", "with_payment_lag")), ("ex-coupon", ("with_ex_coupon_period",)),
                        ("day counters", ("with_first_period_daycounter", "with_last_period_daycounter"))):
        L = LegBuild(ck, given)
        if not L.ok:
            continue
        E, n = L.E, L.plan.n
        empty = lambda v: P(mk("len", v.t, sort="int"))

        def spec(q):
            if q.le(empty(L.rates), 0) or q.le(empty(L.notionals), 0):
                return PANIC
            if "with_ex_coupon_period" in given:
                ix = [f[0] for f in F.adt("Period")["vs"][0][2]].index("length")
                if q.eq(E.proj_field(L.val["with_ex_coupon_period"][0], None, ix, L.st), -2 ** 31):
                    return PANIC
            first = mk("vecof", L.coupon(q, ZERO, first=True))
            if q.eq(n, 2):
                return first
            return concat_(concat_(first, mapvec_(n - 3, lambda k: L.coupon(q, P(k) + 1))), mk("vecof", L.coupon(q, n - 2, last=True)))
        ck.verify(name, fn, [L.leg], spec, E, L.st, value=lambda E_, s, v: E_.term(s, v))
        ck.count("settings")
    ck.floor("settings", ck.counts.get("settings", 0), 4)


@check("F10")
def f10(ck):
    """the yield of a leg"""
    F = ck.F
    ck.explanation = ("MIR abstract interpretation of the construction of the yield finder for a leg of arbitrary length and flows: the loop over the flows becomes a recurrence (sign of the last flow that has one) and a sum (number of sign "
                      "changes), compared with the definition of when a yield exists; its function and derivative compared with present value and duration of the leg; and the call of the solver by the leg's yield function")
    ck.assumptions = ["present value: F05; duration: F06", "occurrence and ex-coupon trading: F03", "legs of at most 2^30 flows"] + TRUST
    ty = F.adt("IrrFinder")["key"]
    here = lambda n: [f for f in F.find(n) if f.self_ty and f.self_ty[0] == "adt" and f.self_ty[1] == ty]
    new, at, der = (here(n)[0] if len(here(n)) == 1 else F.one(n, "IrrFinder") for n in ("new", "at", "derivative"))
    npv_, dur, rate = leg_fn(F, "npv"), leg_fn(F, "modified_duration"), F.one("new", "InterestRate")
    solve = F.one("solve", "Solver1D")
    price, y = var("price", "real"), var("y", "real")
    for inc in (TRUE, FALSE):
        k = "%s settlement flows:" % ("with" if inc is TRUE else "without")
        L = Priced(ck, new, opaque={npv_.key, dur.key, rate.key})
        E, st = L.E, L.st
        st.store = st.store.refine(L.n, drange(0, 2 ** 30))
        terms_ = [E.sym(n, F.adt_ty(t)) for n, t in (("dc", "DayCounter"), ("comp", "Compounding"), ("freq", "Frequency"))]
        args = [L.ref, P(price)] + terms_ + [inc, D(F, L.settle), D(F, L.npvd)]

        def exists(q):
            first = ZERO if q.eq(price, 0) else -ONE if q.gt(price, 0) else ONE
            amount = lambda j: P(L.get(CF, "amount", j))
            has = lambda j: band(L.paid(j, inc), cmp("!=", amount(j), False))
            sign = lambda j: ite(cmp(">", amount(j), False), ONE, -ONE)
            last = lambda j: iter_(j, first, lambda i, p: ite(has(i), sign(i), p), "real")
            turns = lambda j: bor(band(cmp(">", amount(j), False), cmp("<", last(j), False)), band(cmp("<", amount(j), False), cmp(">", last(j), False)))
            return q.gt(sum_(L.n, lambda j: ind(band(L.paid(j, inc), turns(j)))), 0)
        E.panics = []
        ck.verify(k + "exists", new, args, lambda q: ANY if exists(q) else PANIC, E, st)
        ck.count("constructions")
        found = quiet(E, new, args, st)
        ck.floor("results of the construction", len(found), 1)
        for i, r in enumerate(found[:4]):
            me = ref(E, r.state, r.value)
            of = lambda s, f: P(E.opaque_call(s, f.key, [L.ref, ref(E, s, E.opaque_call(s, rate.key, [P(y)] + terms_, rate.body.locals[0])[0][1]), inc, D(F, L.settle), D(F, L.npvd)], ("float", 64))[0][1])
            E.panics = []
            ck.verify("%sfunction:%d" % (k, i), at, [me, P(y)], lambda q: P(price) - of(q.st, npv_), E, r.state)
            E.panics = []
            ck.verify("%sderivative:%d" % (k, i), der, [me, P(y)], lambda q: of(q.st, dur), E, r.state)
            ck.count("functions", 2)
        # the leg's yield: the solver is asked for the zero of that function
        fn = leg_fn(F, "bond_yield")
        calls = []

        def solver(E, s, a, site, subst):
            calls.append((s, a))
            return [(s, P(mk("solution", sort="real")))]
        E.overrides[solve.key] = solver
        E.provided = E.provided | {solve.key}
        E.panics = []
        acc, guess = var("accuracy", "real"), var("guess", "real")
        sv = ref(E, st, E.sym("solver", ("param", "S")))
        ck.verify(k + "yield", fn, [sv] + args + [P(acc), P(guess)], lambda q: P(mk("solution", sort="real")) if exists(q) else PANIC, E, st)
        ck.floor("calls of the solver", len(calls), 1)
        for i, (s, a) in enumerate(calls[:3]):
            of = lambda s, f: P(E.opaque_call(s, f.key, [L.ref, ref(E, s, E.opaque_call(s, rate.key, [P(y)] + terms_, rate.body.locals[0])[0][1]), inc, D(F, L.settle), D(F, L.npvd)], ("float", 64))[0][1])
            for what, c, want in (("function", a[1], lambda s: P(price) - of(s, npv_)), ("derivative", a[2], lambda s: of(s, dur))):
                for s2, v in E.call_closure(s, c, [P(y)], 1, "yield"):
                    ck.ob("%syield:%s:%d" % (k, what, i), val_eq(E, s2, v, want(s2)), "the %s given to the solver is %s" % (what, render(E, s2, v)), fn.nice())
            ck.ob("%syield:accuracy:%d" % (k, i), val_eq(E, s, a[3], P(acc)) and val_eq(E, s, a[4], P(guess)), "accuracy and guess given to the solver are %s and %s" % (render(E, s, a[3]), render(E, s, a[4])), fn.nice())
            ck.count("solver calls")
