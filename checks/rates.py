"""Interest rates: compounding algebra"""
from run import *
from dates import *
from dates_core import ref, TRUST
from models import rpow, fexp, fln

COMP = ["Simple", "Compounded", "Continuous", "SimpleThenCompounded", "CompoundedThenSimple"]
PERIODIC = {"Compounded", "SimpleThenCompounded", "CompoundedThenSimple"}


def variant(F, enum, name):
    for i, (nm, d, fs) in enumerate(F.adt(enum)["vs"]):
        if nm == name:
            return Agg("adt", F.adt_ty(enum)[1], i, ())
    raise mir.Missing("variant %s::%s" % (enum, name))


def freqs(F):
    return [(nm, d) for nm, d, fs in F.adt("Frequency")["vs"]]


class Rates:
    def __init__(self, ck):
        self.ck, F = ck, ck.F
        self.F = F
        self.yf = F.one("year_fraction", "DayCounter")
        self.E = ck.engine(opaque={self.yf.key})
        self.st = State()
        self.r = var("r", "real")

    def rate(self, comp, freq, dc="dc"):
        """the InterestRate built by its constructor, or None when the combination is rejected"""
        F, E = self.F, self.E
        E.panics = []
        x = self.ck.run(E, F.one("new", "InterestRate"), [P(self.r), E.sym(dc, F.adt_ty("DayCounter")), variant(F, "Compounding", comp), variant(F, "Frequency", freq)],
                        self.st.copy(), key="new:%s:%s" % (comp, freq))
        if not x:
            return None
        return x[0].state, ref(E, x[0].state, x[0].value)

    def years(self, st, dc, ds):
        r = self.E.opaque_call(st, self.yf.key, [ref(self.E, st, dc)] + [ref(self.E, st, d) for d in ds], ("float", 64))
        return r[0][1]

    def dates(self, st):
        F, E = self.F, self.E
        ds = [D(F, var(n, "int", MIN_SERIAL, MAX_SERIAL)) for n in ("a", "b", "rs", "re")]
        return ds, [ref(E, st, d) for d in ds]


def allowed(comp, freq):
    return comp not in PERIODIC or freq not in ("Once", "NoFrequency")


def compound(q, comp, f, r, t):
    """compound factor of rate r over time t >= 0"""
    if q.lt(t, 0):
        return PANIC
    simple, power = lambda: P(r) * t + 1, lambda: rpow(P(r).scale(Fraction(1, f)) + 1, P(t).scale(f))
    if comp == "Simple":
        return simple()
    if comp == "Continuous":
        return fexp(P(r) * t)
    if comp == "Compounded":
        return power()
    first = q.le(t, Fraction(1, f))
    return simple() if first == (comp == "SimpleThenCompounded") else power()


@check("R01")
def r01(ck):
    """compound and discount factors"""
    R = Rates(ck)
    F, E = ck.F, R.E
    ck.explanation = ("MIR abstract interpretation of InterestRate built by its constructor for every compounding and frequency: compound and discount factors for an arbitrary rate and time, "
                      "directly and between dates, against the compounding algebra")
    ck.assumptions = ["real arithmetic for f64", "year fractions: an arbitrary day counter"] + TRUST
    t = var("t", "real")
    a, b = var("a", "int", MIN_SERIAL, MAX_SERIAL), var("b", "int", MIN_SERIAL, MAX_SERIAL)
    for comp in COMP:
        for freq, f in freqs(F):
            k = "%s:%s" % (comp, freq)
            x = R.rate(comp, freq)
            ck.ob("new:" + k, (x is not None) == allowed(comp, freq), "InterestRate::new with %s and %s is %s" % (comp, freq, "accepted" if x else "rejected"))
            if x is None or not allowed(comp, freq):
                continue
            st, ir = x
            E.panics = []
            ck.verify("compound:" + k, F.one("compound_factor", "InterestRate"), [ir, P(t)], lambda q: compound(q, comp, f, R.r, t), E, st)
            E.panics = []
            inv = lambda v: v if v in (PANIC, ANY) else v.inv()
            ck.verify("discount:" + k, F.one("discount_factor", "InterestRate"), [ir, P(t)], lambda q: inv(compound(q, comp, f, R.r, t)), E, st)
            ds, rs = R.dates(st)
            yf = R.years(st, E.sym("dc", F.adt_ty("DayCounter")), ds)
            for name, g in (("compound_factor_between_dates", lambda v: v), ("discount_factor_between_dates", inv)):
                E.panics = []
                ck.verify("%s:%s" % (name, k), F.one(name, "InterestRate"), [ir] + rs, lambda q: PANIC if q.lt(b, a) else g(compound(q, comp, f, R.r, yf)), E, st)
            E.panics = []
            ck.verify("frequency:" + k, F.one("frequency", "InterestRate"), [ir], lambda q: variant(F, "Frequency", freq if comp in PERIODIC else "NoFrequency"), E, st)
            ck.count("combinations")
    ck.floor("combinations", ck.counts.get("combinations", 0), 40)


@check("R02")
def r02(ck):
    """implied and equivalent rates"""
    R = Rates(ck)
    F, E = ck.F, R.E
    ck.explanation = ("MIR abstract interpretation of implied and equivalent rates: the rate returned has the requested conventions and, compounded over the same time with the crate's own "
                      "compound_factor, gives back the compound factor it was implied from")
    ck.assumptions = ["real arithmetic for f64", "year fractions: an arbitrary day counter"] + TRUST
    c, t = var("c", "real"), var("t", "real")
    a, b = var("a", "int", MIN_SERIAL, MAX_SERIAL), var("b", "int", MIN_SERIAL, MAX_SERIAL)
    dcty = F.adt_ty("DayCounter")
    fs = [f[0] for f in F.adt("InterestRate")["vs"][0][2]]
    base = R.rate("Continuous", "Annual")
    if base is None:
        return
    st0, ir0 = base

    def conventions(k, s, v, comp, freq, dc):
        """the returned rate carries the requested conventions"""
        g = dict(zip(fs, v.fields)) if isinstance(v, Agg) and len(v.fields) == len(fs) else {}
        ck.ob(k + ":daycounter", val_eq(E, s, g.get("daycounter"), dc), "%s: the implied rate does not use the requested day counter" % k)
        ck.ob(k + ":compounding", val_eq(E, s, g.get("compounding"), variant(F, "Compounding", comp)), "%s: the implied rate does not use the requested compounding" % k)
        ck.verify(k + ":frequency", F.one("frequency", "InterestRate"), [ref(E, s, v)], lambda q: variant(F, "Frequency", freq if comp in PERIODIC else "NoFrequency"), E, s)

    def roundtrip(k, fn, args, st, comp, freq, dc, want, time, reject):
        """fn returns a rate whose compound factor over time is want(q); the call is rejected exactly when reject(q)"""
        if not isinstance(E.panics, list):
            E.panics = []
        E.panics = []
        xs = ck.run(E, fn, args, st, key=k)
        pan = list(E.panics)
        for p in pan:
            for s, e in spec_leaves(E, p.state, lambda q: TRUE if reject(q) else FALSE):
                ck.ob(k + ":panic", e is TRUE, "%s: panics (%s at %s) on valid input, when %s" % (fn.nice(), p.kind, p.where, describe(s, E)), p.where)
        for x in xs or []:
            for s, e in spec_leaves(E, x.state, lambda q: TRUE if reject(q) else FALSE):
                if not ck.ob(k + ":reject", e is not TRUE, "%s: accepts input that must be rejected, when %s" % (fn.nice(), describe(s, E)), fn.nice()):
                    continue
                s2 = x.state.copy()
                s2.store = s.store
                conventions(k, s2, x.value, comp, freq, dc)
                E.panics = []
                ck.verify(k + ":compounds back", F.one("compound_factor", "InterestRate"), [ref(E, s2, x.value), time], want, E, s2)

    for comp in COMP:
        for freq, f in freqs(F):
            k = "%s:%s" % (comp, freq)
            dc = E.sym("dc2", dcty)
            st = st0.copy()
            cv, fv = ref(E, st, variant(F, "Compounding", comp)), variant(F, "Frequency", freq)
            bad = lambda q, c_, t_: not allowed(comp, freq) or q.le(c_, 0) or (q.lt(t_, 0) if q.eq(c_, 1) else q.le(t_, 0))
            roundtrip("implied:" + k, F.one("implied_rate", "InterestRate"), [ir0, P(c), ref(E, st, dc), cv, fv, P(t)], st, comp, freq, dc, lambda q: P(c), P(t), lambda q: bad(q, c, t))
            st = st0.copy()
            ds, rs = R.dates(st)
            yf = R.years(st, dc, ds)
            roundtrip("implied between dates:" + k, F.one("implied_rate_between_dates", "InterestRate"), [ir0, P(c), ref(E, st, dc), ref(E, st, variant(F, "Compounding", comp)), fv] + rs, st,
                      comp, freq, dc, lambda q: P(c), yf, lambda q: q.lt(b, a) or bad(q, c, yf))
            ck.count("combinations")
    ck.floor("combinations", ck.counts.get("combinations", 0), 60)

    # equivalent rates: the factor comes from another rate
    n = 0
    for c1 in COMP:
        for f1n in ("Quarterly",):
            f1 = dict(freqs(F))[f1n]
            x = R.rate(c1, f1n)
            if x is None:
                ck.ob("new:%s:%s" % (c1, f1n), False, "InterestRate::new rejects %s, %s" % (c1, f1n))
                continue
            for comp in COMP:
                for freq, f in freqs(F):
                    if freq not in ("Annual", "Weekly", "Once"):
                        continue
                    k = "%s to %s:%s" % (c1, comp, freq)
                    fac = lambda q, t_: compound(q, c1, f1, R.r, t_)

                    def bad2(q, tf, tr):
                        v = fac(q, tf)
                        return v is PANIC or not allowed(comp, freq) or q.le(v, 0) or (q.lt(tr, 0) if q.eq(v, 1) else q.le(tr, 0))
                    st = x[0].copy()
                    dc0, dc = E.sym("dc", dcty), E.sym("dc2", dcty)
                    cv, fv = ref(E, st, variant(F, "Compounding", comp)), variant(F, "Frequency", freq)
                    roundtrip("equivalent:" + k, F.one("equivalent_rate", "InterestRate"), [x[1], cv, fv, P(t)], st, comp, freq, dc0, lambda q: fac(q, t), P(t), lambda q: bad2(q, t, t))
                    st = x[0].copy()
                    ds, rs = R.dates(st)
                    y1, y2 = R.years(st, dc0, ds), R.years(st, dc, ds)
                    roundtrip("equivalent between dates:" + k, F.one("equivalent_rate_between_dates", "InterestRate"), [x[1], ref(E, st, dc), ref(E, st, variant(F, "Compounding", comp)), fv] + rs, st,
                              comp, freq, dc, lambda q: fac(q, y1), y2, lambda q: q.lt(b, a) or bad2(q, y1, y2))
                    n += 1
    ck.floor("equivalent rates", n, 60)
