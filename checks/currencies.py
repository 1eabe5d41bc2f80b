"""Currencies"""
from run import *
from dates_core import ref, TRUST
from cashflows import implementors, method

# ISO 4217 (the off-shore yuan has no number of its own and shares that of the yuan)
ISO = {"ZAR": (710, "South-African rand"), "CAD": (124, "Canadian dollar"), "USD": (840, "U.S. dollar"), "CNY": (156, "Chinese yuan"), "HKD": (344, "Hong Kong dollar"), "JPY": (392, "Japanese yen"),
       "KRW": (410, "South-Korean won"), "SAR": (682, "Saudi riyal"), "SGD": (702, "Singapore dollar"), "CNH": (156, "Chinese yuan (Hong Kong)"), "CHF": (756, "Swiss franc"), "EUR": (978, "European Euro"),
       "GBP": (826, "British pound sterling"), "NOK": (578, "Norwegian krone"), "SEK": (752, "Swedish krona"), "AUD": (36, "Australian dollar"), "NZD": (554, "New Zealand dollar")}


ACCESSORS = ("name", "code", "numeric_code", "symbol", "fraction_symbol", "fractions_per_unit", "rounding", "triangulation_currency")


def quiet(E, fn, args, st, subst=None):
    saved = E.panics
    try:
        return E.run(fn, args, st.copy(), subst)
    finally:
        E.panics = saved


def deref(E, s, v):
    return E.read(s, v.cell, v.path) if isinstance(v, Ref) else v


@check("U01")
def u01(ck):
    """currencies"""
    F = ck.F
    ck.explanation = ("MIR abstract interpretation of the constructors and accessors of every type that implements Currency, compared with the ISO 4217 table by code; of CurrencyData and its equality for arbitrary content; and of Money")
    ck.assumptions = TRUST
    fields = [f[0] for f in F.adt("CurrencyData")["vs"][0][2]]
    data_ty = F.adt_ty("CurrencyData")
    impls = [t for t in implementors(F, "Currency") if t[0] == "adt"]
    ck.floor("currencies", len(impls), 10)
    seen = {}
    for ty in impls:
        name = ty[1].rsplit("::", 1)[-1]
        code = name[:3]
        if not (name == code + "Currency" and code in ISO):
            continue        # not one of the table's
        E = ck.engine()
        for how in ("new", "default"):
            for ctor in [f for f in F.find(how) if f.self_ty == ty and f.body.argc == 0]:
                for r in quiet(E, ctor, [], State()):
                    me = ref(E, r.state, r.value)

                    def get(m):
                        fn, subst, _ = method(E, F, ty, "Currency", m)
                        rs = quiet(E, fn, [me], r.state, subst)
                        if len(rs) != 1:
                            raise Imprecise("%s of %s has %d results" % (m, name, len(rs)))
                        return rs[0].state, deref(E, rs[0].state, rs[0].value)
                    for m, want in (("code", Str(code)), ("name", Str(ISO[code][1])), ("numeric_code", const(ISO[code][0])), ("fractions_per_unit", const(100))):
                        s, got = get(m)
                        ck.ob("%s:%s:%s" % (name, how, m), val_eq(E, s, got, want), "%s of %s is %s, not %s" % (m, name, render(E, s, got), render(E, s, want)), ctor.nice())
                    s, got = get("rounding")
                    x = var("x", "real")
                    for r2 in quiet(E, F.one("round", "Rounding"), [ref(E, s, got), x], s):
                        same = val_eq(E, r2.state, r2.value, x)
                        if code != "EUR":
                            ck.ob("%s:%s:rounding" % (name, how), same, "amounts of %s are rounded" % name, ctor.nice())
                    if code == "EUR":
                        rs = quiet(E, F.one("closest", "Rounding"), [const(2), const(5)], s)
                        ck.ob("%s:%s:rounding" % (name, how), len(rs) == 1 and val_eq(E, rs[0].state, got, rs[0].value), "amounts of %s are not rounded to the closest hundredth" % name, ctor.nice())
                    seen[code] = 1
                    ck.count("constructors")
    ck.ob("table", set(seen) == set(ISO), "no currency type for %s" % ", ".join(sorted(set(ISO) - set(seen))), "currencies")
    # arbitrary content
    E = ck.engine()
    st = State()
    fn = F.one("new", "CurrencyData")
    args = [E.sym("a%d" % i, t) for i, t in enumerate(fn.body.locals[1:1 + fn.body.argc])]
    rs = quiet(E, fn, args, st)
    ck.ob("data", len(rs) == 1, "CurrencyData::new is not total", fn.nice())
    holder = [t for t in impls if len(F.adts[t[1]]["vs"][0][2]) == 1 and F.adts[t[1]]["vs"][0][2][0][1] == data_ty]
    for ty in holder[:1]:
        for r in rs:
            me = ref(E, r.state, Agg("adt", ty[1], 0, (r.value,)))
            # the constructor's parameters are in the order of the documented fields
            for i, m in enumerate(ACCESSORS):
                fn, subst, _ = method(E, F, ty, "Currency", m)
                ck.verify("accessor:" + m, fn, [me], lambda q: args[i], E, r.state, subst=subst, value=deref)
                E.panics = []
                ck.count("accessors")
    eq = [f for f in F.fns.values() if f.name == "eq" and f.self_ty == data_ty]
    ck.floor("equality", len(eq), 1)
    a, b = E.sym("a", data_ty), E.sym("b", data_ty)
    for f in eq:
        same = None
        ra, rb = ref(E, st, a), ref(E, st, b)
        ck.verify("equal:same", f, [ra, ra], lambda q: TRUE, E, st)
        E.panics = []
        ck.count("equalities")
    datas = {}
    for ty in impls:
        for ctor in [f for f in F.find("new") if f.self_ty == ty and f.body.argc == 0]:
            for r in quiet(E, ctor, [], st):
                fn, subst, _ = method(E, F, ty, "Currency", "data")
                rs = quiet(E, fn, [ref(E, r.state, r.value)], r.state, subst)
                datas[ty] = deref(E, rs[0].state, rs[0].value)
    for f in eq:
        for x in datas:
            for y in datas:
                rs = quiet(E, f, [ref(E, st, datas[x]), ref(E, st, datas[y])], st)
                ck.ob("equal:%s:%s" % (x[1], y[1]), len(rs) == 1 and val_eq(E, rs[0].state, rs[0].value, TRUE if x == y else FALSE), "%s and %s compare wrongly" % (x[1], y[1]), f.nice())
    fn = F.one("new", "Money")
    cur, x = E.sym("currency", fn.body.locals[1]), var("x", "real")
    for i, f in enumerate(F.adt("Money")["vs"][0][2]):
        E.panics = []
        ck.verify("money:" + f[0], fn, [cur, x], lambda q: x if f[0] == "value" else cur, E, st, value=lambda E_, s, v: E_.proj_field(v, None, i, s))
