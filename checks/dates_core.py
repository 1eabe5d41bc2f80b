"""Date: components, construction, ordering, arithmetic"""
from run import *
from dates import *


def ref(E, st, v):
    E.fid += 1
    c = ("G", E.fid)
    st.mem[c] = v
    return Ref(c)


TRUST = ["chrono implements the proleptic Gregorian calendar for 1900..2200", "the MIR interpreter in lib/ (engine, models)"]


@check("D01")
def d01(ck):
    """components of every supported date, over the complete finite domain of 109,573 dates"""
    F = ck.F
    ck.explanation = ("abstract interpretation of the MIR of Date's accessors with the exact powerset domain over all "
                      "109573 supported dates; every partition is compared with an independent Gregorian calendar")
    ck.assumptions = TRUST
    fd, v = date_domain()

    def one(name, spec, contracts=None):
        E = ck.engine(contracts=False, overrides=contracts)
        st = State(store=Store(fd=fd))
        fn = F.one(name, "Date")
        ck.verify(name, fn, [ref(E, st, D(F, v))], spec, E, st)
        ck.count("accessors")
    one("day_of_month", lambda q: comp("dom", v))
    one("month", lambda q: enumv(F, "Month", comp("mon", v)))
    one("year", lambda q: comp("yr", v))
    one("day_of_year", lambda q: comp("yday", v))
    one("weekday", lambda q: enumv(F, "Weekday", comp("wd", v)))
    one("serial_number", lambda q: v)
    full = DateContracts(F).ov
    new = F.one("new", "Date").key
    one("end_of_month", lambda q: D(F, P(mk("eom", v, sort="int"))), {new: full[new]})
    one("is_end_of_month", lambda q: cmp("==", v - P(mk("eom", v, sort="int")), True))
    # leap years and month lengths
    y = var("y", "int", -2 ** 31, 2 ** 31 - 1)
    ly = FinDomain(400, {y.atom(): list(range(1850, 2250))}, OPS)
    E = ck.engine(contracts=False)
    ck.verify("is_leap", F.one("is_leap", "Date"), [y],
              lambda q: PANIC if q.lt(y, 1900) or q.gt(y, 2199) else cmp("==", leap_t(y) - 1, True),
              E, State(store=Store(fd=ly)))
    E = ck.engine(contracts=False)
    ck.verify("is_leap", F.one("is_leap", "Date"), [y], lambda q: PANIC if q.lt(y, 1900) or q.gt(y, 2199) else ANY, E)
    ck.floor("accessors", ck.counts.get("accessors", 0), 8)


def ctor_functions(F):
    """functions that build a Date value or write one of its fields: where a date can come from"""
    key = F.adt("Date")["key"]
    out = set()
    for fn in F.fns.values():
        for b in fn.body.blocks:
            for s in b["s"]:
                if s["k"] != "assign":
                    continue
                r = s["r"]
                if r["k"] == "agg" and isinstance(r.get("ak"), dict) and r["ak"].get("adt") == key:
                    out.add(fn.key)
                # assignment to a field of a Date
                p = s["p"]
                if p["p"]:
                    ty = fn.body.locals[p["l"]]
                    for e in p["p"]:
                        while ty[0] in ("ref", "ptr"):
                            ty = ty[1]
                        if e[0] == "f":
                            if ty[0] == "adt" and ty[1] == key:
                                out.add(fn.key)
                            break
    return out


@check("D02")
def d02(ck):
    """construction and day arithmetic"""
    F = ck.F
    ck.explanation = ("MIR abstract interpretation of every function that can build a Date: result consistent (instant = "
                      "1900-01-01 + serial - 2 days), inside 1900-01-01..2199-12-31, and rejected otherwise; plus a "
                      "who-may-construct rule over all functions of the crate")
    ck.assumptions = TRUST
    visited = set()

    def verify(key, fn, args, spec, E, st=None):
        ck.verify(key, fn, args, spec, E, st)
        visited.update(E.visited)

    # new(d, m, y): all candidate civil dates of 1890..2209
    y, m, d = var("y", "int", -2 ** 31, 2 ** 31 - 1), var("m", "int", 1, 12), var("d", "int", 0, 2 ** 32 - 1)
    pts = [(yy, mm, dd) for yy in range(1890, 2210) for mm in range(1, 13) for dd in range(0, 33)]
    fd = FinDomain(len(pts), {y.atom(): [p[0] for p in pts], m.atom(): [p[1] for p in pts], d.atom(): [p[2] for p in pts]}, OPS)
    new = F.one("new", "Date")
    valid = band(civil_ok(y, m, d), cmp(">=", y - 1900, True), cmp("<=", y - 2199, True))
    E = ck.engine(contracts=False)
    verify("new", new, [d, enumv(F, "Month", m), y], lambda q: D(F, civil_t(y, m, d)) if q(valid) else PANIC, E, State(store=Store(fd=fd)))
    # all other arguments are rejected
    E = ck.engine(contracts=False)
    mm = Sym(mk("var", "m", None, None), F.adt_ty("Month"))
    verify("new:reject", new, [d, mm, y], lambda q: PANIC if q.lt(y, 1900) or q.gt(y, 2199) or q.lt(d, 1) or q.gt(d, 31) else ANY, E)

    i32 = (-2 ** 31, 2 ** 31 - 1)
    s = var("s", "int", *i32)
    n = var("n", "int", *i32)

    def ok(q, x):
        return q.ge(x, MIN_SERIAL) and q.le(x, MAX_SERIAL)
    E = ck.engine(contracts=False)
    verify("from_serial", F.one("from_serial", "Date"), [s], lambda q: D(F, s) if ok(q, s) else PANIC, E)
    for name, val in (("min_date", MIN_SERIAL), ("max_date", MAX_SERIAL)):
        E = ck.engine(contracts=False)
        verify(name, F.one(name, "Date"), [], lambda q, val=val: D(F, const(val)), E)
    E = ck.engine(contracts=False)
    verify("default", F.one("default", "Date", "Default"), [], lambda q: D(F, const(MIN_SERIAL)), E)

    # day arithmetic
    a = var("a", "int", MIN_SERIAL, MAX_SERIAL)
    b = var("b", "int", MIN_SERIAL, MAX_SERIAL)
    cnt = 0
    for op, sign in (("add", 1), ("sub", -1)):
        for fn in F.find(op, "Date", "*") + F.find(op, "&Date", "*"):
            ar = fn.body.locals[2]
            if ar != ("int", 32):
                continue
            E = ck.engine(contracts=False)
            st = State()
            x = D(F, a)
            arg = ref(E, st, x) if fn.body.locals[1][0] == "ref" else x
            r = a + n.scale(sign)
            verify(op + "_days", fn, [arg, n], lambda q, r=r: D(F, r) if ok(q, r) else PANIC, E, st)
            cnt += 1
        for fn in F.find(op + "_assign", "Date", "*"):
            if fn.body.locals[2] != ("int", 32):
                continue
            E = ck.engine(contracts=False)
            st = State()
            x = ref(E, st, D(F, a))
            x.mut = True
            r = a + n.scale(sign)
            ck.verify(op + "_assign_days", fn, [x, n], lambda q, r=r: D(F, r) if ok(q, r) else PANIC, E, st,
                      value=lambda E, s_, v_, x=x: E.read(s_, x.cell, x.path))
            visited.update(E.visited)
            cnt += 1
    ck.floor("day-arithmetic operators", cnt, 6)
    cnt = 0
    for fn in F.find("sub", "Date", "*") + F.find("sub", "&Date", "*"):
        t = fn.body.locals[2]
        while t[0] == "ref":
            t = t[1]
        if t != F.adt_ty("Date"):
            continue
        E = ck.engine(contracts=False)
        st = State()
        args = [ref(E, st, D(F, z)) if fn.body.locals[k + 1][0] == "ref" else D(F, z) for k, z in enumerate((a, b))]
        verify("difference", fn, args, lambda q: a - b, E, st)
        cnt += 1
    ck.floor("date differences", cnt, 2)
    E = ck.engine(contracts=False)
    st = State()
    verify("days_between", F.one("days_between", "Date"), [ref(E, st, D(F, a)), ref(E, st, D(F, b))], lambda q: b - a, E, st)
    # today
    E = ck.engine(contracts=False)
    E = ck.engine(contracts=False, overrides={new.key: DateContracts(F).ov[new.key]})
    r = ck.run(E, F.one("todays_date", "Date"), [])
    for x in r or []:
        ck.ob("today", serial_of(E, x.state, x.value) is not None, "todays_date builds an inconsistent date %r" % (x.value,))
    visited |= E.visited
    # who may construct
    ctors = ctor_functions(F)
    clone = {f.key for f in F.find("clone", "Date", "Clone")}
    ck.count("constructor_functions", len(ctors))
    for k in sorted(ctors):
        ck.ob("construct:" + F.fns[k].nice(), k in visited or k in clone, "%s builds or writes a Date outside the analysed constructors" % F.fns[k].nice(), F.fns[k].nice())
    ck.floor("functions building a Date", len(ctors), 1)


@check("D03")
def d03(ck):
    """ordering, equality"""
    F = ck.F
    ck.explanation = "MIR abstract interpretation of the comparison impls of Date for two arbitrary dates"
    ck.assumptions = TRUST
    a = var("a", "int", MIN_SERIAL, MAX_SERIAL)
    b = var("b", "int", MIN_SERIAL, MAX_SERIAL)

    def o(q):
        return -1 if q.lt(a, b) else 0 if q.eq(a, b) else 1

    def ordv(i):
        return Agg("adt", ORDERING, i + 1, ())

    def go(name, trait, spec):
        fn = F.one(name, "Date", trait)
        E = ck.engine(contracts=False)
        st = State()
        ck.verify(name, fn, [ref(E, st, D(F, a)), ref(E, st, D(F, b))], spec, E, st)
    go("eq", "PartialEq", lambda q: TRUE if o(q) == 0 else FALSE)
    go("partial_cmp", "PartialOrd", lambda q: some(ordv(o(q))))
    go("cmp", "Ord", lambda q: ordv(o(q)))
    for name, exp in (("lt", (-1,)), ("le", (-1, 0)), ("gt", (1,)), ("ge", (0, 1))):
        for fn in F.find(name, "Date", "PartialOrd"):
            go(name, "PartialOrd", lambda q, exp=exp: TRUE if o(q) in exp else FALSE)
    for fn in F.find("ne", "Date", "PartialEq"):
        go("ne", "PartialEq", lambda q: TRUE if o(q) else FALSE)
    for name in ("min", "max"):
        for fn in F.find(name, "Date", "Ord"):
            E = ck.engine(contracts=False)
            w = (lambda q: D(F, a if (o(q) < 0) == (name == "min") else b))
            ck.verify(name, fn, [D(F, a), D(F, b)], w, E)
    # the hash is a function of the date only (equal dates are identical values by D02)
    fn = F.one("hash", "Date", "Hash")
    E = ck.engine(contracts=False)
    st = State()
    h = Ref(("G", "hasher"), (), True)
    st.mem[("G", "hasher")] = Sym(mk("var", "hasher", None, None), ("other", "H"))
    r = ck.run(E, fn, [ref(E, st, D(F, a)), h], st)
    for x in r or []:
        at = {z for z in all_atoms(E.term(x.state, x.state.mem[("G", "hasher")])) if z.op == "var"}
        ck.ob("hash", {z.args[0] for z in at} <= {"a", "hasher"}, "hash of a date depends on %s" % at)


@check("D04")
def d04(ck):
    """date +- period"""
    F = ck.F
    ck.explanation = ("MIR abstract interpretation (loop summaries by induction variables) of every operator combining a date "
                      "and a period, for an arbitrary date, length and unit: result = calendar-month arithmetic with the day "
                      "clamped to the month end, rejected exactly when it leaves 1900..2199")
    ck.assumptions = TRUST + ["Date::new, is_leap, month_length, from_serial: contracts checked by D01/D02"]
    i32 = (-2 ** 31, 2 ** 31 - 1)
    a = var("a", "int", MIN_SERIAL, MAX_SERIAL)
    n = var("n", "int", *i32)
    units = {nm: dv for nm, dv, _ in F.adt("TimeUnit")["vs"]}
    pty = F.adt_ty("Period")
    pf = [f[0] for f in F.adt("Period")["vs"][0][2]]
    full = DateContracts(F).ov
    ov = {}
    for nm in ("new", "from_serial", "is_leap", "month_length", "month"):
        for f in F.find(nm, "Date"):
            ov[f.key] = full[f.key]

    def expected(q, k, unit):
        if unit in ("Days", "Weeks"):
            r = a + k.scale(1 if unit == "Days" else 7)
            return D(F, r) if q.ge(r, MIN_SERIAL) and q.le(r, MAX_SERIAL) else PANIC
        if unit in ("Months", "Years"):
            i = month_index(a) + k.scale(12 if unit == "Years" else 1)
            if q.lt(i, 1900 * 12 + 1) or q.gt(i, 2199 * 12 + 12):
                return PANIC
            if unit == "Years":
                mo = q.val(comp("mon", a))
                i = (comp("yr", a) + k).scale(12) + mo
            ln = mlenk(i)
            day = comp("dom", a)
            if q.gt(day, ln):
                return D(F, som(i) + ln - 1)
            return D(F, som(i) + day - 1)
        return PANIC

    cnt = 0
    for op, sign in (("add", 1), ("sub", -1), ("add_assign", 1), ("sub_assign", -1)):
        for fn in F.find(op, "Date", "*") + F.find(op, "&Date", "*"):
            t = fn.body.locals[2]
            while t[0] == "ref":
                t = t[1]
            if t != pty:
                continue
            cnt += 1
            for unit, dv in units.items():
                E = ck.engine(contracts=False, overrides=ov)
                E.date_facts = True
                st = State()
                st.store = date_axioms(st.store, a)
                uv = Agg("adt", F.adt_ty("TimeUnit")[1], list(units).index(unit), ())
                per = Agg("adt", pty[1], 0, [n if x == "length" else uv for x in pf])
                asg = op.endswith("_assign")
                x0 = D(F, a)
                arg = ref(E, st, x0) if fn.body.locals[1][0] == "ref" else x0
                if asg:
                    arg.mut = True
                p = ref(E, st, per) if fn.body.locals[2][0] == "ref" else per
                ck.verify("%s:%s" % (op, unit), fn, [arg, p], lambda q: expected(q, n.scale(sign), unit), E, st,
                          value=(lambda E, s_, v_, x=arg: E.read(s_, x.cell, x.path)) if asg else None)
    ck.floor("operators on a date and a period", cnt, 7)


def date_axioms(store, s):
    """facts about every valid date"""
    st = store.refine(comp("yr", s), drange(1900, 2199))
    return st.refine(comp("dom", s) - mlenk(month_index(s)), drange(None, 0))


@check("D05")
def d05(ck):
    """n-th weekday of a month"""
    F = ck.F
    ck.explanation = "MIR abstract interpretation with the exact powerset domain over (n, weekday, month, year)"
    ck.assumptions = TRUST + ["Date::new and weekday: contracts checked by D01/D02"]
    n, w, m, y = var("n", "int", 0, 2 ** 64 - 1), var("w", "int", 1, 7), var("m", "int", 1, 12), var("y", "int", -2 ** 31, 2 ** 31 - 1)
    pts = [(a, b, c, d) for a in range(0, 7) for b in range(1, 8) for c in range(1, 13) for d in range(1900, 2200)]
    fd = FinDomain(len(pts), {n.atom(): [p[0] for p in pts], w.atom(): [p[1] for p in pts], m.atom(): [p[2] for p in pts], y.atom(): [p[3] for p in pts]}, OPS)
    fn = F.one("nth_weekday", "Date")
    full = DateContracts(F).ov
    ov = {F.one(k, "Date").key: full[F.one(k, "Date").key] for k in ("new", "weekday")}
    E = ck.engine(contracts=False, overrides=ov)
    t = P(mk("nthwd", n, w, m, y, sort="int"))

    def spec(q):
        if q.lt(n, 1) or q.gt(n, 5):
            return PANIC
        k = som(y.scale(12) + m)
        # the n-th such weekday exists iff it is still in the month
        if q.ge(t, som(y.scale(12) + m + 1)):
            return PANIC
        return D(F, t)
    ck.verify("nth_weekday", fn, [n, enumv(F, "Weekday", w), enumv(F, "Month", m), y], spec, E, State(store=Store(fd=fd)))
    E = ck.engine(contracts=False, overrides=ov)
    wv, mv = Sym(mk("var", "w", None, None), F.adt_ty("Weekday")), Sym(mk("var", "m", None, None), F.adt_ty("Month"))
    ck.verify("nth_weekday:reject", fn, [n, wv, mv, y], lambda q: PANIC if q.lt(n, 1) or q.gt(n, 5) or q.lt(y, 1900) or q.gt(y, 2199) else ANY, E)


@check("D06")
def d06(ck):
    """integer <-> enum conversions"""
    F = ck.F
    ck.explanation = "MIR abstract interpretation of the enum conversions over all integers / all variants; inverse of each other"
    n = var("n", "int", -2 ** 31, 2 ** 31 - 1)
    cnt = 0
    for en, extra in (("Month", {}), ("Weekday", {0: 7}), ("Frequency", {})):
        adt = F.adt(en)
        ds = {v[1]: v[0] for v in adt["vs"]}
        std = {"Month": range(1, 13), "Weekday": range(1, 8), "Frequency": (-1, 0, 1, 2, 3, 4, 6, 12, 13, 26, 52, 365, 999)}[en]
        ck.ob("%s:ordinals" % en, sorted(ds) == sorted(std), "%s has ordinals %s" % (en, sorted(ds)))
        for src, ty in (("i32", ("int", 32)), ("u32", ("uint", 32))):
            for fn in F.find("from", en, "From", arg=[src]):
                cnt += 1
                x = n if src == "i32" else var("n", "int", 0, 2 ** 32 - 1)

                def spec(q, ds=ds, extra=extra, x=x):
                    for d in ds:
                        if q.eq(x, d):
                            return enumv(F, en, const(d))
                    for e, d in extra.items():
                        if q.eq(x, e):
                            return enumv(F, en, const(d))
                    return PANIC
                # From<u32> goes through an i32 cast: numbers above i32::MAX are not claimed
                E = ck.engine(contracts=False)
                st = State()
                if src == "u32":
                    st.store = st.store.refine(x, drange(0, 2 ** 31 - 1))
                ck.verify("%s:from:%s" % (en, src), fn, [x], spec, E, st)
        for fn in F.fns.values():
            if fn.name == "from" and fn.trait and fn.trait.endswith("::From") and [tystr(mir.cty(t)) for t in fn.assoc["targs"]][1:] == [en]:
                if tystr(fn.self_ty) in ("i32", "u32", "usize", "f64", "i64"):
                    cnt += 1
                    e = Sym(mk("var", "e", None, None), F.adt_ty(en))
                    E = ck.engine(contracts=False)
                    st = State()
                    dv = E.discr_of(e)

                    def spec2(q, dv=dv):
                        return const(q.val(dv))
                    if tystr(fn.self_ty) in ("u32", "usize") and en == "Frequency":
                        continue
                    ck.verify("%s:into:%s" % (en, tystr(fn.self_ty)), fn, [e], spec2, E, st)
    ck.floor("conversions", cnt, 9)
