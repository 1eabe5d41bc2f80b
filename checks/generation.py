"""Dates of schedules of several periods"""
import multiprocessing
import os

import run as run_mod
from run import *
from dates import *
from dates_core import ref, TRUST
from rates import variant
from cashflows import quiet, DEFAULT
from schedules import Build, IMM_RULES
from loops import seq_len, inst, deep_subst
from engine import State

BEYOND = ("overflow", "unsupported", "date-range", "nth-range")
LAST = {True: 0, False: -1}


class Row:
    """a sequence by its length and its elements; what cannot be decided is asked of q"""

    def __init__(self, n, at):
        self.n, self.at = P(n), at

    def push(self, x):
        return Row(self.n + 1, lambda q, i: x if q.eq(P(i) - self.n, 0) else self.at(q, i))

    def prepend(self, x):
        return Row(self.n + 1, lambda q, i: x if q.eq(P(i), 0) else self.at(q, P(i) - 1))

    def grow(self, x, front):
        return self.prepend(x) if front else self.push(x)

    def put(self, j, x):
        return Row(self.n, lambda q, i: x if q.eq(P(i) - P(j), 0) else self.at(q, i))

    def pop(self):
        return Row(self.n - 1, self.at)

    def remove(self, j):
        return Row(self.n - 1, lambda q, i: self.at(q, i) if q.lt(P(i) - P(j), 0) else self.at(q, P(i) + 1))

    def map(self, f, inner=False):
        """f on every element, or on all but the first and the last"""
        if not inner:
            return Row(self.n, lambda q, i: f(self.at(q, i)))
        return Row(self.n, lambda q, i: self.at(q, i) if q.eq(P(i), 0) or q.eq(P(i) - self.n + 1, 0) else f(self.at(q, i)))


def row_of(t, num):
    """the sequence a term stands for; num: elements are dates"""
    if t.op == "push":
        return row_of(t.args[0], num).push(value(t.args[1], num))
    if t.op == "insert":
        r, j, x = row_of(t.args[0], num), P(t.args[1]), value(t.args[2], num)
        return Row(r.n + 1, lambda q, i: x if q.eq(P(i) - j, 0) else r.at(q, i) if q.lt(P(i) - j, 0) else r.at(q, P(i) - 1))
    if t.op == "setelem":
        return row_of(t.args[0], num).put(P(t.args[1]), value(t.args[2], num))
    if t.op == "popped":
        return row_of(t.args[0], num).pop()
    if t.op == "removed":
        return row_of(t.args[0], num).remove(P(t.args[1]))
    if t.op == "concat":
        a, b = row_of(t.args[0], num), row_of(t.args[1], num)
        return Row(a.n + b.n, lambda q, i: a.at(q, i) if q.lt(P(i) - a.n, 0) else b.at(q, P(i) - a.n))
    if t.op == "vecof":
        xs = [value(x, num) for x in t.args]

        def at(q, i):
            for j, x in enumerate(xs):
                if q.eq(P(i), j):
                    return x
            raise Imprecise("element beyond the end")
        return Row(const(len(xs)), at)
    if t.op == "mapvec":
        return Row(P(t.args[0]), lambda q, i: value(inst(t, P(i)), num))
    return Row(seq_len(t), lambda q, i: P(mk("serial", mk("elem", t, q.index(P(i))), sort="int")) if num else mk("elem", t, q.index(P(i))))


def value(x, num):
    if not num:
        return x
    if isinstance(x, T) and x.op == "ty":
        x = x.args[0]
    if isinstance(x, T) and x.op == "date":
        return P(x.args[0])
    return P(mk("serial", x, sort="int"))


class Known:
    """answers from what is known in a state"""

    def __init__(self, st):
        self.st = st

    def test(self, rel, p, c):
        t = self.st.truth(cmp(rel, P(p) - c, True))
        if t is None:
            raise Undecided("%s %s %s" % (p, rel, c))
        return t

    def eq(self, p, c):
        return self.test("==", p, c)

    def lt(self, p, c):
        return self.test("<", p, c)

    def index(self, i):
        return self.st.canon(i)


class Undecided(Exception):
    pass


SEQS = ("push", "insert", "setelem", "popped", "removed", "concat", "vecof", "mapvec")


def resolved(store, x):
    """x with the elements of modified sequences traced back to where they come from"""
    q = Known(store)

    def f(a):
        if isinstance(a, T) and a.op == "serial" and isinstance(a.args[0], T):
            e = a.args[0].args[0] if a.args[0].op == "ty" else a.args[0]
            if e.op == "elem" and isinstance(e.args[0], T) and e.args[0].op in SEQS:
                try:
                    return resolved(store, row_of(e.args[0], True).at(q, P(e.args[1])))
                except Undecided:
                    return None
        if isinstance(a, T) and a.op == "elem" and isinstance(a.args[0], T) and a.args[0].op in SEQS:
            try:
                r = row_of(a.args[0], False).at(q, P(a.args[1]))
                return resolved(store, r)
            except Undecided:
                return None
        return None
    return deep_subst(x, f)


def settle(s):
    """the state with what it knows restated about the elements themselves; None when that is contradictory"""
    st = s.store
    new = []
    same = {}
    for k, dom in st.c.items():
        k2 = resolved(st, k) if isinstance(k, Poly) else k
        if k2 == k:
            same[k] = dom
        else:
            new.append((k2, dom))
    if not new:
        return s
    out = Store(same, st.fd, st.mask)
    for k2, dom in new:
        if out.bounds(k2).inter(dom) != out.bounds(k2):
            out = out.refine(k2, dom)
            if out is None:
                return None
    return s.with_store(out)


class Asked(Known):
    """answers from the state, asking for a case distinction where it does not know"""

    def test(self, rel, p, c):
        f = cmp(rel, resolved(self.st, P(p)) - c, True)
        t = self.st.truth(f)
        if t is None:
            raise NeedAssume(f)
        return t

    def __call__(self, f):
        t = self.st.truth(f)
        if t is None:
            raise NeedAssume(f)
        return t

    def le(self, a, b):
        return self.test("<=", P(a) - P(b), 0)

    def less(self, a, b):
        return self.test("<", P(a) - P(b), 0)

    def same(self, a, b):
        return self.test("==", P(a) - P(b), 0)

    def equal(self, a, b):
        return self.st.equal(resolved(self.st, P(a)), resolved(self.st, P(b)))

    def flag(self, a):
        if isinstance(a, bool):
            return a
        if a.op in ("true", "false"):
            return a.op == "true"
        if a.op in ("cmp", "not", "and", "or"):
            return self(resolved(self.st, a))
        return resolved(self.st, a)


def leaves(s, f, limit=3000):
    """[(state, f(q))]"""
    work, out, n = [s], [], 0
    while work:
        s = settle(work.pop())
        n += 1
        if n > limit:
            raise Imprecise("too many cases")
        if s is None or loops.impossible(s.store):
            continue
        q = Asked(s.store)
        q.state = s
        try:
            out.append((s, f(q)))
        except NeedAssume as na:
            for tv in (True, False):
                for x in s.store.assume(na.f, tv):
                    if x.c == s.store.c and x.mask == s.store.mask:
                        raise Imprecise("undecidable condition %r" % (na.f,))
                    work.append(s.with_store(x))
    return out


class Grow:
    """one rule: what the dates start from, the steps, and what follows"""

    def __init__(self, ck, rule, unit, first, ntl, eom):
        F = self.F = ck.F
        self.ck, self.rule, self.key = ck, rule, "%s:%s%s%s%s" % (rule, unit, ":first" if first else "", ":nexttolast" if ntl else "", ":monthend" if eom else "")
        one = lambda n: F.one(n, "Calendar").key
        S = self.serial
        ov = {one("adjust"): lambda E, s, a, site, subst: [(s, D(F, self.adj(s, a[0], S(E, s, a[1]), a[2])))],
              one("end_of_month"): lambda E, s, a, site, subst: [(s, D(F, self.month_end(s, a[0], S(E, s, a[1]))))],
              one("is_end_of_month"): lambda E, s, a, site, subst: [(s, self.at_month_end(s, a[0], S(E, s, a[1])))],
              one("advance_by_days"): lambda E, s, a, site, subst: [(s, D(F, P(mk("advanced", self.cal(s, a[0]), S(E, s, a[1]), P(a[2]), E.term(s, a[3]), E.term(s, a[4]), a[5] if isinstance(a[5], T) else E.term(s, a[5]), sort="int"))))]}
        for n in ("previous_twentieth", "next_twentieth"):
            for f in F.find(n):
                if f.self_ty is None:
                    ov[f.key] = lambda E, s, a, site, subst, n=n: [(s, D(F, self.twentieth(n, s, S(E, s, a[0]), a[1])))]
        B = self.B = Build(ck, rule, unit, overrides=ov, eom=int(eom))
        E = self.E = B.E
        st = self.st = B.st
        st.store = st.store.refine(B.len, drange(1, None)).refine(B.eff, drange(DEFAULT + 1, None)).refine(B.term, drange(DEFAULT + 1, None)).refine(P(B.eff) - B.term, drange(None, -1))
        for given, d, no in ((first, B.first, B.eff), (ntl, B.ntl, B.term)):
            if given:
                st.store = st.store.refine(d, drange(DEFAULT + 1, None)).assume(cmp("==", P(d) - no, True), False)[0]
            else:
                st.store = st.store.refine(d, drange(DEFAULT, DEFAULT))
        self.first, self.ntl = (B.first if first else None), (B.ntl if ntl else None)
        self.eom = eom and unit in ("Months", "Years")
        self.cds = rule in ("Twentieth", "TwentiethIMM", "OldCDS", "CDS", "CDS2015")
        self.nil = quiet(E, F.one("new", "NilHoliday"), [], st)[0].value
        self.back = rule == "Backward"
        self.grown = {}

    def loop_of(self, s):
        """the loop the dates of a state come from"""
        known = {a for k in s.store.c if isinstance(k, Poly) for a in k.atoms() if a.op == "len"}
        for (D0, G0), v in self.grown.items():
            if v[0].n.atom() in known or v[1].n.atom() in known:
                return v
        return None

    def serial(self, E, s, v):
        return self.B.serial(E, s, v)

    def deref(self, s, v):
        while isinstance(v, Ref):
            v = self.E.read(s, v.cell, v.path)
        return v

    def cal(self, s, c):
        return self.E.term(s, self.deref(s, c))

    def adj(self, s, c, d, conv):
        return P(mk("adjusted", self.cal(s, c), P(d), self.E.term(s, self.deref(s, conv)), sort="int"))

    def month_end(self, s, c, d):
        return P(mk("monthend", self.cal(s, c), P(d), sort="int"))

    def at_month_end(self, s, c, d):
        return cmp("==", P(mk("ismonthend", self.cal(s, c), P(d), sort="int")) - 1, True)

    def twentieth(self, which, s, d, rule):
        return P(mk(which, P(d), self.E.term(s, self.deref(s, rule)), sort="int"))

    # ---- the documented construction ----

    def third_wednesday(self, s, x):
        part = lambda n: P(mk(n, P(x), sort="int"))
        return P(mk("nthwd", const(3), self.E.discr_of(variant(self.F, "Weekday", "Wednesday")), part("mon"), part("yr"), sort="int"))

    def adjust(self, q, d, conv="convention"):
        return self.adj(q.state, self.B.syms["calendar"], d, self.B.syms[conv])

    def tw(self, q, which, d):
        return self.twentieth(which, q.state, d, variant(self.F, "DateGenerationRule", self.rule))

    def unadjusted(self, q, conv):
        u = [x[1] for x in self.F.adt("BusinessDayConvention")["vs"] if x[0] == "Unadjusted"][0]
        return q.same(self.E.discr_of(self.B.syms[conv]), u)

    def advance(self, q, d, n):
        E, s = self.E, q.state
        return P(mk("advanced", self.cal(s, self.nil), P(d), P(n), E.term(s, variant(self.F, "TimeUnit", self.B.unit)), E.term(s, self.B.syms["convention"]), TRUE if self.eom else FALSE, sort="int"))

    def start(self, q):
        """dates and flags before the first step, the date stepped from, the date not to be passed"""
        B = self.B
        none = Row(ZERO, None)
        if self.back:
            d, g, seed = none.push(P(B.term)), none, P(B.term)
            if self.ntl is not None:
                g = g.prepend(q.same(self.advance(q, seed, -P(B.len)), self.ntl))
                d, seed = d.prepend(P(self.ntl)), P(self.ntl)
            return d, g, seed, P(B.eff if self.first is None else self.first)
        eff = P(B.eff)
        d, g, seed = none, none, eff
        if self.rule in ("CDS", "CDS2015"):
            seed = self.tw(q, "previous_twentieth", eff)
            if q.less(eff, self.adjust(q, seed)):
                d, g = d.push(addm(seed, const(-3))), g.push(True)
        d = d.push(seed)
        if self.first is not None:
            g = g.push(q.same(self.advance(q, seed, P(B.len)), self.first))
            d, seed = d.push(P(self.first)), P(self.first)
        elif self.cds:
            x = self.tw(q, "next_twentieth", eff)
            if self.rule == "OldCDS" and q.less(x - eff, 30):
                x = self.tw(q, "next_twentieth", x + 1)
            if not q.same(x, eff):
                d, g, seed = d.push(x), g.push(self.rule in ("CDS", "CDS2015")), x
        return d, g, seed, P(B.term if self.ntl is None else self.ntl)

    def beyond(self, q, x, end):
        return q.less(x, end) if self.back else q.less(end, x)

    def edge(self, q, d):
        return d.at(q, ZERO if self.back else d.n - 1)

    def add(self, q, d, g, x, flag, conv="convention"):
        """x added to the dates unless it falls on the date added before when adjusted"""
        if q.same(self.adjust(q, self.edge(q, d), conv), self.adjust(q, x, conv)):
            return d, g
        return d.grow(P(x), self.back), g.grow(flag, self.back)

    def step(self, q, d, g, x):
        return self.add(q, d, g, x, True)

    def finish(self, q, d, g):
        """after the last step"""
        B = self.B
        last = self.first if self.back else self.ntl
        if last is not None:
            d, g = self.add(q, d, g, last, False)
        if self.back:
            return self.add(q, d, g, P(B.eff), False)
        if self.cds:
            # (compared with the termination date, extended to the next twentieth)
            if q.same(self.adjust(q, self.edge(q, d), "last"), self.adjust(q, P(B.term), "last")):
                return d, g
            return d.push(self.tw(q, "next_twentieth", P(B.term))), g.push(True)
        return self.add(q, d, g, P(B.term), False, "last")

    def adjusted(self, q, d, seed):
        s, cal = q.state, self.B.syms["calendar"]
        if self.rule.startswith("ThirdWednesday"):
            d = d.map(lambda x: self.third_wednesday(s, x), self.rule == "ThirdWednesday")
        if self.eom and q(self.at_month_end(s, cal, seed)):
            end = lambda x: self.month_end(s, cal, x)
            plain = lambda x: self.plain_month_end(s, x)
            free, free1 = self.unadjusted(q, "convention"), self.unadjusted(q, "last")
            a, b = d.at(q, ZERO), d.at(q, d.n - 1)
            d = d.map(plain if free else end, True)
            if not free1:
                a, b = end(a), end(b)
            elif self.back:
                b = plain(b)
            else:
                a = plain(a)
            if not q.same(a, b):
                d = d.put(ZERO, a).put(d.n - 1, b)
            return d
        inner = d.map(lambda x: self.adjust(q, x), True)
        if self.rule != "OldCDS":
            inner = inner.put(ZERO, self.adjust(q, d.at(q, ZERO)))
        if not self.unadjusted(q, "last") and self.rule not in ("CDS", "CDS2015"):
            # (a date that is first and last is adjusted as both)
            inner = inner.put(d.n - 1, self.adjust(q, inner.at(q, d.n - 1), "last"))
        return inner

    def plain_month_end(self, s, x):
        r = quiet(self.E, self.F.one("end_of_month", "Date"), [ref(self.E, s, D(self.F, P(x)))], s)
        if len(r) != 1:
            raise Imprecise("end of month has %d results" % len(r))
        return P(self.B.serial(self.E, r[0].state, r[0].value))

    def cleaned(self, q, d, g):
        if q.le(2, d.n) and q.le(d.at(q, d.n - 1), d.at(q, d.n - 2)):
            b, same = d.at(q, d.n - 1), q.same(d.at(q, d.n - 2), d.at(q, d.n - 1))
            if q.le(2, g.n):
                g = g.put(g.n - 2, same)
            d, g = d.put(d.n - 2, b).pop(), g.pop()
        if q.le(2, d.n) and q.le(d.at(q, ONE), d.at(q, ZERO)):
            a, same = d.at(q, ZERO), q.same(d.at(q, ZERO), d.at(q, ONE))
            if not q.le(2, g.n):
                return None
            d, g = d.put(ONE, a).remove(ZERO), g.put(ONE, same).remove(ZERO)
        return (d, g) if q.le(2, d.n) else None

    # ---- the code ----

    def on_loop(self, E, fr, header, s0, gen, backs, phis):
        rd = lambda s, k: E.term(s, E.read_path(s, s.mem[k[0]], k[1]))
        ds = gs = None
        for k, p in phis.items():
            if p[0] == "sym":
                els = {self.kind(t.args[-1]) for b in backs for t in [rd(b, k)] if t.op in ("push", "insert")}
                ds, gs = (k if "date" in els else ds), (k if "flag" in els else gs)
        grow = ds is not None and gs is not None
        E.closed_forms = E.guard_history = not grow
        if not grow:
            return
        nice, ck = fr.fn.nice(), self.ck
        self.loops += 1
        D0, G0 = rd(gen, ds), rd(gen, gs)
        d, g = row_of(D0, True), row_of(G0, False)
        # one flag fewer than dates, at least one date: at the start, and after any step that is checked below
        gen.store = gen.store.refine(d.n, drange(1, None)).refine(d.n - g.n - 1, drange(0, 0))
        gen.store = gen.store.refine(g.n, drange(0, None))
        k = [P(E.read_path(gen, gen.mem[c[0]], c[1])) for c, p in phis.items() if p[0] == "ind"]
        kv = [a for x in k for a in x.atoms() if a.op == "var" and str(a.args[0]).startswith("k:")]
        if not kv:
            raise Imprecise("the steps are not counted")
        count = P(kv[0]) + 1
        self.grown[(D0, G0)] = (d, g, count)
        self.check(s0, rd(s0, ds), rd(s0, gs), lambda q: self.start(q)[:2], "start", "starts from")
        for b in backs:
            b = b.copy()
            st = b.store.refine(d.n, drange(1, None))
            b.store = st.refine(d.n - g.n - 1, drange(0, 0))

            def spec(q):
                d1, g1, seed, end = self.start(q)
                x = self.advance(q, seed, (P(self.B.len) * count).scale(-1 if self.back else 1))
                return "goes on beyond the last date" if self.beyond(q, x, end) else self.step(q, d, g, x)
            self.check(b, rd(b, ds), rd(b, gs), spec, "step", "continues with")
            ck.count("steps")

    def kind(self, x):
        x = x.args[0] if isinstance(x, T) and x.op == "ty" else x
        if isinstance(x, T):
            return "date" if x.op in ("date", "ite") and getattr(x, "sort", None) != "int" and x.op == "date" else "flag" if x.op in ("true", "false", "cmp", "not", "and", "or") else None

    def check(self, s, td, tg, spec, what, says):
        """the sequences td and tg are those of the specification"""
        ck, key, where = self.ck, "%s:%s" % (self.key, what), "datetime/schedule.rs: Schedule::new"

        def compare(q):
            w = spec(q)
            if w is None or isinstance(w, str):
                return w or "accepts a schedule of a single date"
            for num, t, r in ((True, td, w[0]), (False, tg, w[1])):
                name = "date" if num else "flag"
                a = row_of(t, num)
                if not q.equal(a.n, r.n):
                    return "%s %s %ss, expected %s" % (says, resolved(q.st, a.n), name, resolved(q.st, r.n))
                for i in self.places(q, r.n):
                    x, y = a.at(q, i), r.at(q, i)
                    if num and not q.equal(x, y):
                        return "%s date %s = %s, expected %s" % (says, i, resolved(q.st, x), resolved(q.st, y))
                    if not num:
                        x, y = q.flag(x), q.flag(y)
                        if x != y and str(x) != str(y):
                            return "%s flag %s = %s, expected %s" % (says, i, x, y)
            return None
        try:
            for s2, bad in leaves(s, compare):
                ck.ob(key, bad is None, "%s: %s (%s), when %s" % (where, bad, self.key, describe(s2, self.E)), where)
        except Imprecise as e:
            ck.ob(key + ":undecided", False, "%s: cannot decide: %s (%s)" % (where, e, self.key), where)

    def places(self, q, n):
        for m in range(5):
            if q.eq(n - m, 0):
                for i in range(m):
                    yield const(i)
                return
        yield ZERO
        yield ONE
        yield n - 2
        yield n - 1
        i = P(var("i", "int"))
        if not q.lt(i - 2, 0) and q.lt(i - n + 2, 0):
            yield i

    def run(self):
        ck, E, B = self.ck, self.E, self.B
        E.on_loop = self.on_loop
        self.loops = 0
        E.panics = []
        res = ck.run(E, B.fn, B.args, self.st, key=self.key)
        if res is None:
            return
        ck.ob(self.key + ":loop", self.loops >= 1, "Schedule::new: no loop generates the dates", B.fn.nice())
        if not self.loops:
            return
        fields = self.F.adt("Schedule")["vs"][0][2]
        vec = lambda el: [i for i, f in enumerate(fields) if f[1][0] == "adt" and f[1][1].endswith("::Vec") and (f[1][2][0] == ("bool",)) == el][0]

        def final(q, loop):
            if loop is None:
                return "generates no dates"
            d, g, seed, end = self.start(q)
            d0, g0, count = loop
            x = self.advance(q, seed, (P(B.len) * count).scale(-1 if self.back else 1))
            if not self.beyond(q, x, end):
                return "stops before the last date"
            d, g = self.finish(q, d0, g0)
            return self.cleaned(q, self.adjusted(q, d, seed), g)
        for r in res:
            part = lambda i: E.term(r.state, E.proj_field(r.value, None, i, r.state))
            loop = self.loop_of(r.state)
            self.check(r.state, part(vec(False)), part(vec(True)), lambda q: final(q, loop), "result", "returns")
            ck.count("results")
        for p in E.panics:
            if p.kind in BEYOND:
                continue

            def rejected(q):
                if B.reject(Q2(q)):
                    return True
                loop = self.loop_of(p.state)
                return loop is not None and final(q, loop) is None
            try:
                for s2, ok in leaves(p.state, rejected):
                    ck.ob(self.key + ":rejected", ok, "Schedule::new fails (%s at %s) for consistent arguments, when %s" % (p.kind, p.where, describe(s2, E)), B.fn.nice())
            except Imprecise as e:
                ck.ob(self.key + ":undecided", False, "Schedule::new: cannot decide: %s (%s)" % (e, self.key), B.fn.nice())


class Q2:
    def __init__(self, q):
        self.q = q

    def eq(self, a, b):
        return self.q.same(a, b)

    def le(self, a, b):
        return self.q.le(a, b)

    def lt(self, a, b):
        return self.q.less(a, b)

    def gt(self, a, b):
        return self.q.less(b, a)

    def ge(self, a, b):
        return self.q.le(b, a)

    def __call__(self, f):
        return self.q(f)


def one_rule(args):
    pid, tier, seed, job = args
    ck = run_mod.Check(pid, FACTS[0], tier, seed)
    Grow(ck, *job).run()
    ck.count("combinations of arguments")
    return ck.obl, ck.ok, ck.viol, ck.counts, ck.functions, ck.partitions


FACTS = []


def all_rules(ck, jobs):
    """the combinations, several at a time"""
    FACTS[:] = [ck.F]
    with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
        for obl, ok, viol, counts, functions, parts in pool.imap_unordered(one_rule, [(ck.pid, ck.tier, ck.seed, j) for j in jobs], 1):
            ck.obl += obl
            ck.ok += ok
            ck.viol += viol
            ck.functions |= functions
            ck.partitions += parts
            for k, n in counts.items():
                ck.count(k, n)
    ck.viol.sort()
    ck.floor("steps", ck.counts.get("steps", 0), 2 * len(jobs))
    ck.floor("results", ck.counts.get("results", 0), 2 * len(jobs))


HOW = ("MIR abstract interpretation of the rule based schedule constructor for an unknown calendar and conventions, symbolic dates and tenor length; the loop that generates the dates is decided by induction (what it starts from, and what one step "
       "adds to arbitrary dates generated so far), what follows it is decided for dates of any number, element by element")
TAKEN = ["calendar adjustment, month ends and steps in the calendar without holidays: C05, C09, C11", "twentieths: S02", "arguments accepted or rejected: S04"] + TRUST


@check("S06")
def s06(ck):
    """dates of schedules of several periods"""
    ck.explanation, ck.assumptions = HOW, TAKEN
    N, Y = False, True
    some = ((Y, N), (N, Y), (N, N))
    jobs = [(r, "Months", N, N, N) for r in ("CDS", "CDS2015", "OldCDS", "Twentieth", "TwentiethIMM", "ThirdWednesday", "ThirdWednesdayInclusive")]
    jobs = [(r, "Months", a, b, N) for r in ("Forward", "Backward") for a, b in some] + jobs
    all_rules(ck, jobs)

