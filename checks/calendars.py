"""Easter and the holiday rules of every calendar"""
import datetime

import holidays
from run import *
from dates import *
from dates_core import ref, TRUST

for _m in holidays.MARKETS:
    OPS["hol_" + _m] = (lambda m: lambda s: None if s is None or not MIN_SERIAL <= s <= MAX_SERIAL else int(holidays.is_holiday(m, to_date(s))))(_m)


def _sat_trunc(v, lo, hi):
    if v is None:
        return None
    t = int(v)
    return max(lo, min(hi, t))


OPS["trunc"] = _sat_trunc


@check("D11")
def d11(ck):
    """Easter Monday"""
    F = ck.F
    ck.explanation = ("MIR abstract interpretation of every Easter function over all years: the value must be the day of the year of "
                      "Easter Monday (Meeus' Gregorian and Julian algorithms) for 1900..2199 and the call is rejected elsewhere")
    ck.assumptions = TRUST
    y = var("y", "int", -2 ** 31, 2 ** 31 - 1)
    n = 0
    for name, alg in (("easter_monday", holidays.gregorian_easter), ("easter_monday_orthodox", holidays.orthodox_easter)):
        years = list(range(1900, 2200))
        col = [(alg(k) + datetime.timedelta(1)).timetuple().tm_yday for k in years]
        e = var("$" + name, "int", 60, 150)
        fns = [f for f in F.fns.values() if f.name == name]
        ck.floor(name, len(fns), 1)
        for fn in fns:
            fd = FinDomain(300, {y.atom(): years, e.atom(): col}, OPS)
            E = ck.engine()
            ck.verify(fn.nice(), fn, [y], lambda q: e, E, State(store=Store(fd=fd)))
            E = ck.engine()
            ck.verify(fn.nice(), fn, [y], lambda q: PANIC if q.lt(y, 1900) or q.gt(y, 2199) else ANY, E)
            n += 1
    ck.count("functions", n)
    ck.count("years", 300)


# constructor -> market
CONSTRUCTORS = [
    ("UnitedStates", "settlement", "us_settlement"), ("UnitedStates", "libor_impact", "us_libor"), ("UnitedStates", "nyse", "us_nyse"),
    ("UnitedStates", "government_bond", "us_bond"), ("UnitedStates", "nerc", "us_nerc"), ("UnitedStates", "federal_reserve", "us_fed"),
    ("UnitedKingdom", "new", "uk"), ("UnitedKingdom", "exchange", "uk"), ("UnitedKingdom", "metals", "uk"),
    ("Brazil", "new", "brazil"), ("Brazil", "exchange", "brazil_exchange"), ("Italy", "new", "italy"), ("Italy", "exchange", "italy_exchange"),
    ("Japan", "new", "japan"), ("Switzerland", "new", "switzerland"), ("Target", "new", "target"),
    ("WeekendsOnly", "new", "weekends"), ("NilHoliday", "new", "null"),
]


def calendar(ck, E, owner, name, st):
    """the calendar value built by the argument-less constructor"""
    r = ck.run(E, ck.F.one(name, owner), [], st, key="%s::%s" % (owner, name))
    if r is None or len(r) != 1 or E.panics:
        ck.ob("%s::%s" % (owner, name), False, "constructor does not return one calendar")
        return None
    return r[0]


def market_check(ck, owners):
    F = ck.F
    ck.explanation = ("MIR abstract interpretation of Calendar::is_holiday on the calendar built by each constructor, with the exact "
                      "powerset domain over all 109,573 supported dates; oracle: holiday sets generated year by year from the market rules")
    ck.assumptions = TRUST + ["Date::weekday, month: contracts checked by D01"]
    fd, v = date_domain()
    n = 0
    for owner, name, market in CONSTRUCTORS:
        if owner not in owners:
            continue
        for q in ("is_holiday", "is_business_day"):
            E = ck.engine()
            x = calendar(ck, E, owner, name, State(store=Store(fd=fd)))
            if x is None:
                continue
            st = x.state
            cal = x.value
            want = cmp("==", A("hol_" + market, v) - (1 if q == "is_holiday" else 0), True)
            fns = F.find(q, "Calendar")
            if q == "is_business_day" and not fns:
                continue
            ck.verify("%s::%s:%s" % (owner, name, q), F.one(q, "Calendar"), [ref(E, st, cal), ref(E, st, D(F, v))], lambda _: want, E, st)
            n += 1
    ck.count("calendars_x_queries", n)
    ck.count("dates", fd.n)
    ck.floor("calendar queries", n, len([1 for o, _, _ in CONSTRUCTORS if o in owners]))


@check("C01")
def c01(ck):
    market_check(ck, ("UnitedStates",))


@check("C02")
def c02(ck):
    market_check(ck, ("UnitedKingdom",))


@check("C03")
def c03(ck):
    market_check(ck, ("Brazil",))


@check("C04")
def c04(ck):
    market_check(ck, ("Italy",))


@check("C05")
def c05(ck):
    market_check(ck, ("Japan",))


@check("C06")
def c06(ck):
    market_check(ck, ("Switzerland", "Target"))


NAMES = {
    ("UnitedStates", "settlement"): ("US settlement", "UnitedStatesSettlement"),
    ("UnitedStates", "libor_impact"): ("US with Libor impact", "UnitedStatesLiborImpact"),
    ("UnitedStates", "nyse"): ("New York stock exchange", "UnitedStatesNyse"),
    ("UnitedStates", "government_bond"): ("US government bond market", "UnitedStatesGovernmentBond"),
    ("UnitedStates", "nerc"): ("North American Energy Reliability Council", "UnitedStatesNerc"),
    ("UnitedStates", "federal_reserve"): ("Federal Reserve Bankwire System", "UnitedStatesFederalReserve"),
    ("UnitedKingdom", "new"): ("UK settlement", "UnitedKingdomSettlement"),
    ("UnitedKingdom", "exchange"): ("London stock exchange", "UnitedKingdomExchange"),
    ("UnitedKingdom", "metals"): ("London metals exchange", "UnitedKingdomMetals"),
    ("Brazil", "new"): ("Brazil", "BrazilSettlement"), ("Brazil", "exchange"): ("BOVESPA", "BrazilExchange"),
    ("Italy", "new"): ("Italian settlement", "ItalySettlement"), ("Italy", "exchange"): ("Milan stock exchange", "ItalyExchange"),
    ("Japan", "new"): ("Japan", None), ("Switzerland", "new"): ("Switzerland", None), ("Target", "new"): ("TARGET", None),
    ("WeekendsOnly", "new"): ("weekends only", None), ("NilHoliday", "new"): ("Null", None),
}


@check("C07")
def c07(ck):
    """theoretical calendars; weekends, names and constructors of all calendars"""
    F = ck.F
    market_check(ck, ("WeekendsOnly", "NilHoliday"))
    ck.explanation += ("; plus, for every constructor of the crate that returns a Calendar: display name, weekend days, no added or "
                       "removed holidays, and the market-specific constructors build the same calendar as the facade")
    w = var("w", "int", 1, 7)
    for owner, name, market in CONSTRUCTORS:
        E = ck.engine()
        x = calendar(ck, E, owner, name, State())
        if x is None:
            continue
        nm, direct = NAMES[owner, name]
        k = "%s::%s" % (owner, name)
        E.panics = []
        ck.verify(k + ":name", F.one("name", "Calendar"), [ref(E, x.state, x.value)], lambda q: nm, E, x.state, value=text)
        we = holidays.MARKETS[market][1]
        ck.verify(k + ":is_weekend", F.one("is_weekend", "Calendar"), [ref(E, x.state, x.value), enumv(F, "Weekday", w)],
                  lambda q: (bor(cmp("==", w - 1, True), cmp("==", w - 7, True)) if we else FALSE), E, x.state)
        for acc in ("added_holidays", "removed_holidays"):
            ck.verify(k + ":" + acc, F.one(acc, "Calendar"), [ref(E, x.state, x.value)], lambda q: True, E, x.state,
                      value=lambda E, s, v: isinstance(deep(E, s, v), Sym) and deep(E, s, v).t.op == "emptyset")
        if direct:
            f = F.one("new", direct)
            ck.verify(direct + "::new", f, [], lambda q: x.value, E, x.state)
        ck.count("constructors")
    ck.floor("constructors", ck.counts.get("constructors", 0), 18)


def deep(E, s, v):
    while isinstance(v, Ref):
        v = E.read(s, v.cell, v.path)
    return v


def text(E, s, v):
    v = deep(E, s, v)
    return v.s if isinstance(v, Str) else v
