"""Builders: every setter replaces exactly what it names"""
from run import *
from dates import *
from dates_core import ref, TRUST
from loops import mapvec_
from rates import variant
from cashflows import option, quiet, DEFAULT


def fields(E, st, v, names):
    """values of the named parts of a builder"""
    return {n: E.proj_field(v, None, i, st) for i, n in enumerate(names)}


def setters(F, ty):
    """methods of the type that take the builder and give it back"""
    out = []
    t = F.adt_ty(ty)
    for fn in F.fns.values():
        b = fn.body
        if fn.self_ty == t and fn.trait is None and b is not None and b.argc >= 1 and b.locals[1] == t and b.locals[0] == t:
            out.append(fn)
    return sorted(out, key=lambda f: f.name)


class Setter:
    """one setter applied to an arbitrary builder"""

    def __init__(self, ck, E, fn, ty, names):
        self.fn = fn
        self.st = State()
        self.names = names
        self.me = E.sym("builder", ck.F.adt_ty(ty))
        self.args = [E.sym("arg%d" % i, fn.body.locals[i]) for i in range(2, fn.body.argc + 1)]
        E.panics = []
        self.ok = False
        xs = ck.run(E, fn, [self.me] + self.args, self.st, key=fn.name)
        if xs is None:
            return
        for p in E.panics:
            ck.ob(fn.name + ":total", False, "%s may panic (%s at %s)" % (fn.nice(), p.kind, p.where), p.where)
        self.outs = [Outcome(E, x, self) for x in xs]
        self.changed = set().union(*[o.changed for o in self.outs])
        self.ok = True


class Outcome:
    def __init__(self, E, x, S):
        self.st = x.state
        self.before, self.after = fields(E, self.st, S.me, S.names), fields(E, self.st, x.value, S.names)
        self.changed = {n for n in S.names if not val_eq(E, self.st, self.after[n], self.before[n])}


@check("F09")
def f09(ck):
    """setters of FixedRateLeg"""
    F = ck.F
    ck.explanation = ("MIR abstract interpretation of FixedRateLeg::new and of every method that takes and returns the builder, on an arbitrary builder: the parts named by the setter hold the "
                      "argument afterwards whatever they held before, every other part is what it was")
    ck.assumptions = TRUST
    ty = "FixedRateLeg"
    irn = F.one("new", "InterestRate")
    E = ck.engine(opaque={irn.key})
    names = [f[0] for f in F.adt(ty)["vs"][0][2]]
    some = lambda v: option(E, v)
    rate = lambda S, x: E.opaque_call(S.st, irn.key, [x] + S.args[1:], irn.body.locals[0])[0][1]
    one = lambda v: mk("vecof", E.term(None, v))
    want = {
        "with_notional": lambda S: {"notionals": mk("vecof", E.term(S.st, S.args[0]))},
        "with_notionals": lambda S: {"notionals": S.args[0]},
        "with_coupon_rate": lambda S: {"coupon_rates": mk("vecof", E.term(S.st, rate(S, S.args[0])))},
        "with_coupon_rates": lambda S: {"coupon_rates": mapvec_(P(mk("len", S.args[0].t, sort="int")), lambda k: E.term(S.st, rate(S, E.value_of(mk("elem", S.args[0].t, P(k)), ("float", 64)))))},
        "with_interest_rate": lambda S: {"coupon_rates": mk("vecof", E.term(S.st, S.args[0]))},
        "with_interest_rates": lambda S: {"coupon_rates": S.args[0]},
        "with_first_period_daycounter": lambda S: {"first_period_dc": some(S.args[0])},
        "with_last_period_daycounter": lambda S: {"last_period_dc": some(S.args[0])},
        "with_payment_calendar": lambda S: {"payment_calendar": some(S.args[0])},
        "with_payment_adjustment": lambda S: {"payment_adjustment": some(S.args[0])},
        "with_payment_lag": lambda S: {"payment_lag": some(S.args[0])},
        "with_ex_coupon_period": lambda S: dict(zip(("ex_coupon_period", "ex_coupon_calendar", "ex_coupon_adjustment", "ex_coupon_end_of_month"), map(some, S.args))),
    }
    for fn in setters(F, ty):
        S = Setter(ck, E, fn, ty, names)
        if not S.ok:
            continue
        w = want.get(fn.name)
        if w is None:
            continue
        w = w(S)
        for o in S.outs:
            for n in names:
                exp = w.get(n, o.before[n])
                a = o.after[n]
                if isinstance(exp, T) and not isinstance(a, (T, Poly)):
                    a = E.term(o.st, a)
                ck.ob("%s:%s" % (fn.name, n), val_eq(E, o.st, a, exp), "%s leaves %s = %s, expected %s" % (fn.nice(), n, render(E, o.st, a), render(E, o.st, exp)), fn.nice())
        ck.count("setters")
    # the constructor: what was given, nothing else
    new = F.one("new", ty)
    args = [E.sym("arg%d" % i, new.body.locals[i]) for i in range(1, new.body.argc + 1)]
    E.panics = []
    xs = ck.run(E, new, args, State(), key="new")
    for x in xs or ():
        got = fields(E, x.state, x.value, names)
        exp = dict(zip(("schedule", "notionals", "coupon_rates"), args))
        for n in names:
            e = exp.get(n, option(E, None))
            ck.ob("new:" + n, val_eq(E, x.state, got[n], e), "%s sets %s = %s, expected %s" % (new.nice(), n, render(E, x.state, got[n]), render(E, x.state, e)), new.nice())
    ck.ob("new:total", bool(xs) and not E.panics, "%s may panic" % new.nice(), new.nice())
    ck.floor("setters", ck.counts.get("setters", 0), 12)


@check("S01")
def s01(ck):
    """ScheduleBuilder hands its settings to Schedule::new"""
    F = ck.F
    ty = "ScheduleBuilder"
    ck.explanation = ("MIR abstract interpretation of ScheduleBuilder: each setter on an arbitrary builder replaces its own part only, independently of the previous content; new, each setter and build together "
                      "call Schedule::new with the argument set (and the default otherwise)")
    ck.assumptions = TRUST
    sn = F.one("new", "Schedule")
    E = ck.engine(opaque={sn.key})
    names = [f[0] for f in F.adt(ty)["vs"][0][2]]
    new, build = F.one("new", ty), F.one("build", ty)
    V = lambda e, v: variant(F, e, v)
    # position of each setting among the arguments of Schedule::new
    ctx, eff, term, tenor, cal, conv, tconv, rule, eom, first, ntl = range(11)
    given = [E.sym("arg%d" % i, new.body.locals[i]) for i in range(1, new.body.argc + 1)]
    table = {"with_convention": (conv,), "with_termination_convention": (tconv,), "with_rule": (rule,), "forwards": (rule,), "backwards": (rule,), "with_end_of_month": (eom,),
             "with_first_date": (first,), "with_next_to_last_date": (ntl,)}
    fixed = {"forwards": V("DateGenerationRule", "Forward"), "backwards": V("DateGenerationRule", "Backward")}
    parts = {}
    found = setters(F, ty)
    for fn in found:
        if fn.name not in table:
            continue
        S = Setter(ck, E, fn, ty, names)
        if not S.ok:
            continue
        parts[fn.name] = S
        ck.ob(fn.name + ":one", len(S.changed) <= 1, "%s changes %s" % (fn.nice(), sorted(S.changed)), fn.nice())
        for o in S.outs:
            for n in sorted(o.changed):
                old = {a for a in all_atoms(E.term(o.st, o.after[n])) if a.op == "var" and "builder" in repr(a)}
                ck.ob(fn.name + ":fresh", not old, "%s: the new %s depends on the old builder" % (fn.nice(), n), fn.nice())
        ck.count("setters")
    for a in parts:
        for b in parts:
            if a < b and table[a] != table[b]:
                c = parts[a].changed & parts[b].changed
                ck.ob("apart:%s:%s" % (a, b), not c, "%s and %s both set %s" % (a, b, sorted(c)), parts[a].fn.nice())
    # what reaches Schedule::new
    for chosen in [()] + [(m,) for m in sorted(parts)] + [tuple(m for m in sorted(parts) if m not in ("forwards", "backwards"))]:
        st = State()
        E.panics = []
        exp = list(given) + [V("BusinessDayConvention", "Following"), None, V("DateGenerationRule", "Backward"), FALSE, D(F, DEFAULT), D(F, DEFAULT)]
        xs = ck.run(E, new, given, st, key="new")
        ok = xs is not None and len(xs) == 1
        for m in chosen:
            if not ok:
                break
            fn = parts[m].fn
            args = [E.sym("%s%d" % (m, i), fn.body.locals[i]) for i in range(2, fn.body.argc + 1)]
            exp[table[m][0]] = args[0] if args else fixed[m]
            xs = ck.run(E, fn, [xs[0].value] + args, xs[0].state, key=m)
            ok = xs is not None and len(xs) == 1
        if not ok:
            continue
        if exp[tconv] is None:
            exp[tconv] = exp[conv]
        want = lambda q: E.opaque_call(st.copy(), sn.key, exp, sn.body.locals[0])[0][1]
        ck.verify("build:" + "+".join(chosen), build, [xs[0].value], want, E, xs[0].state)
        ck.count("builds")
    ck.floor("setters", ck.counts.get("setters", 0), 8)
    ck.floor("builds", ck.counts.get("builds", 0), 10)
