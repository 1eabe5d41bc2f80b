"""Period: comparison, arithmetic, frequency"""
from run import *
from dates import *
from dates_core import ref, TRUST

BIG = 5000000
CAL = ("Days", "Weeks", "Months", "Years")


def units(F):
    return {v[0]: (i, v[1]) for i, v in enumerate(F.adt("TimeUnit")["vs"])}


def period(F, n, unit):
    pf = [f[0] for f in F.adt("Period")["vs"][0][2]]
    u = Agg("adt", F.adt_ty("TimeUnit")[1], units(F)[unit][0], ()) if isinstance(unit, str) else unit
    return Agg("adt", F.adt_ty("Period")[1], 0, [P(n) if x == "length" else u for x in pf])


def span(n, unit):
    """(family, count) with count in days or in months"""
    n = P(n)
    return {"Days": ("d", n), "Weeks": ("d", n.scale(7)), "Months": ("m", n), "Years": ("m", n.scale(12))}[unit]


def day_range(q, n, unit):
    lo, hi = {"Days": (1, 1), "Weeks": (7, 7), "Months": (28, 31), "Years": (365, 366)}[unit]
    if q.ge(n, 0):
        return P(n).scale(lo), P(n).scale(hi)
    return P(n).scale(hi), P(n).scale(lo)


def parts(E, st, v):
    """(length, unit name) of a period value"""
    v = E.read(st, v.cell, v.path) if isinstance(v, Ref) else v
    pf = [f[0] for f in E.F.adt("Period")["vs"][0][2]]
    if not isinstance(v, Agg):
        v = E.expand(v)
    n, u = v.fields[pf.index("length")], v.fields[pf.index("unit")]
    d = st.store.bounds(E.discr_of(u)).singleton()
    if d is None:
        raise NeedSplit(E.discr_of(u))
    return n, [k for k, (i, dv) in units(E.F).items() if dv == d][0]


def same_span(E, st, act, exp):
    """period value act denotes the span exp = (family, count)"""
    n, u = parts(E, st, act)
    if u not in CAL:
        return False
    f, c = span(n, u)
    if not same_serial(st.store, c, exp[1]):
        return False
    return f == exp[0] or st.store.bounds(exp[1]).singleton() == 0


def pvar(name):
    return var(name, "int", -BIG, BIG)


def order(q, n, u, m, w):
    """-1, 0, 1 or None"""
    (f, a), (g, b) = span(n, u), span(m, w)
    if f == g or q.eq(n, 0) or q.eq(m, 0):
        return -1 if q.lt(a, b) else 0 if q.eq(a, b) else 1
    (alo, ahi), (blo, bhi) = day_range(q, n, u), day_range(q, m, w)
    return -1 if q.lt(ahi, blo) else 1 if q.gt(alo, bhi) else None


@check("D07")
def d07(ck):
    """comparison, equality, hash of periods"""
    F = ck.F
    ck.explanation = ("MIR abstract interpretation of the comparison, equality and hash impls of Period for every pair of units "
                      "and arbitrary lengths; oracle: the order of the spans (or of their day ranges)")
    ck.assumptions = ["lengths within +-%d (no i32 overflow)" % BIG]
    n, m = pvar("n"), pvar("m")

    def ordv(i):
        return Agg("adt", ORDERING, i + 1, ())
    for u in CAL:
        for w in CAL:
            def go(name, trait, spec):
                fn = F.one(name, "Period", trait)
                E = ck.engine(contracts=False)
                st = State()
                ck.verify("%s:%s:%s" % (name, u, w), fn, [ref(E, st, period(F, n, u)), ref(E, st, period(F, m, w))], spec, E, st)
                ck.count("unit pairs")

            def o(q):
                return order(q, n, u, m, w)
            go("partial_cmp", "PartialOrd", lambda q: (lambda r: NONE if r is None else some(ordv(r)))(o(q)))
            go("eq", "PartialEq", lambda q: TRUE if o(q) == 0 else FALSE)
            if F.find("ne", "Period", "PartialEq"):
                go("ne", "PartialEq", lambda q: FALSE if o(q) == 0 else TRUE)
            for name, exp in (("lt", (-1,)), ("le", (-1, 0)), ("gt", (1,)), ("ge", (0, 1))):
                if F.find(name, "Period", "PartialOrd"):
                    go(name, "PartialOrd", lambda q, exp=exp: TRUE if o(q) in exp else FALSE)
    # equal periods hash alike
    fn = F.one("hash", "Period", "Hash")

    def h(p, st):
        E = ck.engine(contracts=False)
        st = st.copy()
        r = Ref(("G", "hasher"), (), True)
        st.mem[("G", "hasher")] = Sym(mk("var", "hasher", None, None), ("other", "H"))
        x = ck.run(E, fn, [ref(E, st, p), r], st, key="hash")
        for p_ in E.panics:
            ck.ob("hash:panic", False, "hashing a period can panic (%s at %s)" % (p_.kind, p_.where), p_.where)
        return [(y.state.store, E.term(y.state, y.state.mem[("G", "hasher")])) for y in x or []]

    def same(key, p, q):
        st = State()
        a, b = h(p, st), h(q, st)
        for sa, ta in a:
            for sb, tb in b:
                # joint partition
                x = sa
                for k, d in sb.c.items():
                    x = x.refine(P(k), d) if x is not None else None
                if x is None:
                    continue
                ck.ob("hash:" + key, val_eq_term(x, ta, tb), "equal periods %s hash differently: %r / %r" % (key, ta, tb))

    def val_eq_term(store, a, b):
        if a is b:
            return True
        if isinstance(a, Poly) and isinstance(b, Poly):
            return same_serial(store, a, b)
        if isinstance(a, T) and isinstance(b, T):
            return a.op == b.op and len(a.args) == len(b.args) and all(val_eq_term(store, x, y) for x, y in zip(a.args, b.args))
        return a == b
    k = pvar("k")
    same("Years/Months", period(F, k, "Years"), period(F, k.scale(12), "Months"))
    same("Weeks/Days", period(F, k, "Weeks"), period(F, k.scale(7), "Days"))
    for u in units(F):
        same("zero:" + u, period(F, 0, u), period(F, 0, "Days"))
    for u in CAL:
        same("self:" + u, period(F, k, u), period(F, k, u))
    ck.floor("unit pairs", ck.counts.get("unit pairs", 0), 32)


@check("D08")
def d08(ck):
    """period arithmetic and conversions preserve the span"""
    F = ck.F
    ck.explanation = ("MIR abstract interpretation of Period's arithmetic, normalisation and conversions for every unit and arbitrary "
                      "lengths; oracle: the denoted span (a number of months or of days)")
    ck.assumptions = ["lengths within +-%d (no i32 overflow)" % BIG]
    n, m = pvar("n"), pvar("m")
    pty = F.adt_ty("Period")

    def self_arg(E, st, fn, p, k=1):
        return ref(E, st, p) if fn.body.locals[k][0] == "ref" else p
    cnt = 0
    for u in CAL:
        # normalise: same span, canonical form
        for name in ("normalise", "normalised"):
            for fn in F.find(name, "Period"):
                E = ck.engine(contracts=False)
                st = State()
                x = ref(E, st, period(F, n, u))
                x.mut = True
                inplace = fn.body.locals[0] == ("tuple", ()) or fn.name == "normalise"

                def canon(E, s, act, exp):
                    if not same_span(E, s, act, exp):
                        return False
                    l, w = parts(E, s, act)
                    if w == "Months":
                        return not s.store.assume(cmp("==", P(iexpr("irem", l, const(12))), True))
                    if w == "Days" and s.store.bounds(l).singleton() != 0:
                        return not s.store.assume(cmp("==", P(iexpr("irem", l, const(7))), True))
                    return w in ("Weeks", "Years", "Days") and (w == "Days" or not s.store.assume(cmp("==", l, True)))
                ck.verify("%s:%s" % (name, u), fn, [x], lambda q: span(n, u), E, st, eq=canon,
                          value=(lambda E, s, v, x=x: E.read(s, x.cell, x.path)) if inplace else None)
                cnt += 1
        # days_min_max
        fn = F.one("days_min_max", "Period")
        E = ck.engine(contracts=False)
        st = State()
        st.store = st.store.refine(n, drange(0, None))
        ck.verify("days_min_max:" + u, fn, [self_arg(E, st, fn, period(F, n, u))], lambda q: tup(*day_range(q, n, u)), E, st)
        # conversions
        for name, fam, k in (("years", "m", Fraction(1, 12)), ("months", "m", 1), ("weeks", "d", Fraction(1, 7)), ("days", "d", 1)):
            fn = F.one(name, "Period")
            E = ck.engine(contracts=False)
            st = State()

            def spec(q):
                if q.eq(n, 0):
                    return const(0)
                f, c = span(n, u)
                return c.scale(k) if f == fam else PANIC
            ck.verify("%s:%s" % (name, u), fn, [self_arg(E, st, fn, period(F, n, u))], spec, E, st)
            cnt += 1
        # negation, products, quotients
        for fn in F.find("neg", "Period", "*"):
            E = ck.engine(contracts=False)
            st = State()
            f, c = span(n, u)
            ck.verify("neg:" + u, fn, [self_arg(E, st, fn, period(F, n, u))], lambda q: (f, -c), E, st, eq=same_span)
            cnt += 1
        for fn in F.find("mul", "Period", "*"):
            if fn.body.locals[2] != ("int", 32):
                continue
            E = ck.engine(contracts=False)
            st = State()
            r = var("r", "int", -400, 400)
            f, c = span(n, u)
            ck.verify("mul:" + u, fn, [self_arg(E, st, fn, period(F, n, u)), r], lambda q: (f, c * r), E, st, eq=same_span)
            cnt += 1
        for name in ("div", "div_assign"):
            for fn in F.find(name, "Period", "*"):
                if fn.body.locals[2] != ("int", 32):
                    continue
                E = ck.engine(contracts=False)
                st = State()
                asg = name == "div_assign"
                x = ref(E, st, period(F, n, u)) if asg else self_arg(E, st, fn, period(F, n, u))
                if asg:
                    x.mut = True

                def spec(q):
                    if q.eq(m, 0):
                        return PANIC
                    fine = {"Years": 12, "Weeks": 7}.get(u, 1)
                    if q.eq(P(iexpr("irem", n, m)), 0):
                        return (u, P(iexpr("idiv", n, m)))
                    z = n.scale(fine)
                    if q.eq(P(iexpr("irem", z, m)), 0):
                        return ({"Years": "Months", "Weeks": "Days"}.get(u, u), P(iexpr("idiv", z, m)))
                    return PANIC

                def eqd(E, s, act, exp):
                    l, w = parts(E, s, act)
                    return w == exp[0] and same_serial(s.store, l, exp[1])
                ck.verify("%s:%s" % (name, u), fn, [x, m], spec, E, st, eq=eqd,
                          value=(lambda E, s, v, x=x: E.read(s, x.cell, x.path)) if asg else None)
                cnt += 1
        # sums
        for name, sign in (("add_assign", 1), ("sub_assign", -1), ("add", 1), ("sub", -1)):
            for fn in F.find(name, "Period", "*"):
                t = fn.body.locals[2]
                t = t[1] if t[0] == "ref" else t
                if t != pty:
                    continue
                for w in CAL:
                    E = ck.engine(contracts=False)
                    st = State()
                    asg = name.endswith("assign")
                    x = ref(E, st, period(F, n, u)) if asg else self_arg(E, st, fn, period(F, n, u))
                    if asg:
                        x.mut = True

                    def spec(q):
                        (f, a), (g, b) = span(n, u), span(m, w)
                        if q.eq(n, 0):
                            return (g, b.scale(sign))
                        if f == g:
                            return (f, a + b.scale(sign))
                        return (f, a) if q.eq(m, 0) else PANIC
                    ck.verify("%s:%s:%s" % (name, u, w), fn, [x, self_arg(E, st, fn, period(F, m, w), 2)], spec, E, st, eq=same_span,
                              value=(lambda E, s, v, x=x: E.read(s, x.cell, x.path)) if asg else None)
                    cnt += 1
    # equal to itself after construction
    fn = F.one("new", "Period")
    for u in units(F):
        E = ck.engine(contracts=False)
        ck.verify("new:" + u, fn, [n, Agg("adt", F.adt_ty("TimeUnit")[1], units(F)[u][0], ())], lambda q: period(F, n, u), E)
    ck.floor("operations", cnt, 4 * 16)


@check("D09")
def d09(ck):
    """frequency <-> period"""
    F = ck.F
    ck.explanation = "MIR abstract interpretation of the conversions between Period and Frequency for every frequency and every period"
    ck.assumptions = ["lengths within +-%d" % BIG]
    fr = {v[0]: v[1] for v in F.adt("Frequency")["vs"]}
    n = pvar("n")
    fn = F.one("frequency", "Period")
    TAB = {"Days": {1: "Daily"}, "Weeks": {1: "Weekly", 2: "Biweekly", 4: "EveryFourthWeek"},
           "Months": {1: "Monthly", 2: "Bimonthly", 3: "Quarterly", 4: "EveryFourthMonth", 6: "Semiannual", 12: "Annual"},
           "Years": {1: "Annual"}}
    for u in CAL:
        E = ck.engine(contracts=False)
        st = State()

        def spec(q):
            if q.eq(n, 0):
                return enumv(F, "Frequency", const(fr["Once" if u == "Years" else "NoFrequency"]))
            for k, f in TAB[u].items():
                if q.eq(n, k) or q.eq(n, -k):
                    return enumv(F, "Frequency", const(fr[f]))
            return enumv(F, "Frequency", const(fr["OtherFrequency"]))
        ck.verify("frequency:" + u, fn, [ref(E, st, period(F, n, u))], spec, E, st)
    conv = F.one("from", "Period", "From", arg=["Frequency"])
    exp = {"NoFrequency": (0, "Days"), "Once": (0, "Years"), "Annual": (1, "Years"), "Daily": (1, "Days")}
    for u in ("Months", "Weeks"):
        for k, f in TAB[u].items():
            exp.setdefault(f, (k, u))
    for f, d in fr.items():
        E = ck.engine(contracts=False)
        e = Agg("adt", F.adt_ty("Frequency")[1], [v[0] for v in F.adt("Frequency")["vs"]].index(f), ())
        ck.verify("from:" + f, conv, [e], lambda q: period(F, *exp[f]) if f in exp else PANIC, E)
        ck.count("frequencies")
    ck.floor("frequencies", ck.counts.get("frequencies", 0), 13)
