"""Bound-variable terms (sums, sequences, searches, recurrences), their semantic equality, and closed
forms of loops.

Uniform layout of a bound-variable term: args[0] is outside the binder (a count or a tuple), args[1] is the bound
variable, the rest are bodies; `iter` binds two variables (args[1] index, args[2] accumulator).

  sum(n, k, x)            x(0) + ... + x(n-1), n >= 0
  mapvec(n, k, x)         [x(0), ..., x(n-1)], n >= 0
  filtermap(n, k, c, x)   the x(k) with c(k), k < n
  first(0, k, c)          the least k >= 0 with c(k)
  iter((n, x0), k, p, x)  p := x0; for k in 0..n: p := x(k, p)
"""
from fractions import Fraction
import terms
from terms import *

BINDERS = {"sum": 1, "prod": 1, "mapvec": 1, "filtermap": 1, "first": 1, "iter": 2}
_depth = {}


def bdepth(x):
    """largest index of a bound variable inside"""
    if isinstance(x, Poly):
        return max([bdepth(a) for a in x.atoms()] or [0])
    if isinstance(x, tuple):
        return max([bdepth(a) for a in x] or [0])
    if isinstance(x, T):
        r = _depth.get(x)
        if r is None:
            if x.op == "var" and isinstance(x.args[0], str) and x.args[0].startswith("$"):
                r = int(x.args[0][2:] or 0)
            else:
                r = max([bdepth(a) for a in x.args if isinstance(a, (T, Poly, tuple))] or [0])
            _depth[x] = r
        return r
    return 0


def close(op, out, bound, bodies, sort):
    """canonical bound-variable term; `bound`: the variables (T) to bind"""
    d = 1 + max(bdepth(b) for b in bodies)
    ren = {}
    nb = []
    for i, v in enumerate(bound):
        n = mk("var", "$%s%d" % ("kp"[i], d), 0 if i == 0 else None, None, sort=v.sort)
        nb.append(n)
        ren[v] = n
    bodies = [deep_subst(b, ren.get) for b in bodies]
    return mk(op, out, *nb, *bodies, sort=sort)


def inst(t, *vals):
    """the bodies of a bound-variable term at the given values of its bound variables"""
    nb = BINDERS[t.op]
    bound, bodies = t.args[1:1 + nb], t.args[1 + nb:]
    ren = dict(zip(bound, [v if isinstance(v, T) and not isinstance(v, Poly) else v for v in vals]))
    d = bdepth(bound[0])

    def f(x):
        v = ren.get(x)
        if v is None and x.op != "var" and bdepth(x) < d:
            return x        # the bound variables do not occur
        return v
    r = [deep_subst(b, f) for b in bodies]
    return r[0] if len(r) == 1 else r


_fresh = [0]


def fresh(sort="int", lo=0):
    _fresh[0] += 1
    return mk("var", "k:%d'" % _fresh[0], lo, None, sort=sort)


# -- constructors ----------------------------------------------------------------------------------------

def first_(f):
    k = fresh()
    return P(first_k(k, f(P(k))))


def first_k(k, c):
    if c is TRUE:
        return ZERO
    # a condition decided by a constant bound on k needs no search
    return close("first", ZERO, (k,), [c], "int")


def sum_(n, f):
    k = fresh()
    return sum_k(n, k, f(P(k)))


def sum_k(n, k, x):
    """linear: constants and factors that do not depend on k are taken out"""
    n = P(n)
    x = P(x)
    if n.is_const() and n.const() <= 64:
        r = ZERO
        for i in range(max(0, int(n.const()))):
            r = r + deep_subst(x, lambda a: const(i) if a is k else None)
        return r
    r = ZERO
    groups = {}
    for m, c in x.d.items():
        dep = tuple((a, e) for a, e in m if k in all_atoms(a))
        ind = tuple((a, e) for a, e in m if k not in all_atoms(a))
        groups.setdefault(dep, []).append((ind, c))
    for dep, l in groups.items():
        co = ZERO
        for ind, c in l:
            co = co + Poly({ind: c})
        if not dep:
            r = r + n * co
        else:
            body = Poly({dep: 1})
            r = r + co * P(close("sum", n, (k,), [body], "int" if is_int_poly(body) else "real"))
    return r


def prod_(n, f):
    k = fresh()
    return prod_k(n, k, P(f(P(k))))


def prod_k(n, k, x):
    n, x = P(n), P(x)
    if n.is_const() and n.const() <= 16:
        r = ONE
        for i in range(max(0, int(n.const()))):
            r = r * P(deep_subst(x, lambda a: const(i) if a is k else None))
        return r
    return P(close("prod", n, (k,), [x], "real"))


def mapvec_(n, f):
    k = fresh()
    return mapvec_k(n, k, f(P(k)))


def mapvec_k(n, k, x):
    n = P(n)
    if n.is_const() and n.const() <= 64:
        return mk("vecof", *[deep_subst(x, lambda a: const(i) if a is k else None) for i in range(max(0, int(n.const())))])
    return close("mapvec", n, (k,), [x], "any")


def filtermap_(n, c, f):
    k = fresh()
    return filtermap_k(n, k, c(P(k)), f(P(k)))


def filtermap_k(n, k, c, x):
    if c is FALSE:
        return mk("vecof")
    if c is TRUE:
        return mapvec_k(n, k, x)
    return close("filtermap", P(n), (k,), [c, x], "any")


def iter_(n, x0, f, sort="int"):
    k, p = fresh(), fresh(sort, None)
    return iter_k(n, x0, k, p, f(P(k), P(p) if sort in ("int", "real") else p))


def iter_k(n, x0, k, p, x):
    n = P(n)
    sort = p.sort
    if n.is_const() and n.const() <= 0:
        return x0
    if n.is_const() and n.const() <= 16:
        r = x0
        for i in range(int(n.const())):
            r = deep_subst(x, lambda a: const(i) if a is k else r if a is p else None)
        return r
    d = x - P(p) if isinstance(x, Poly) else None
    if d is not None and p not in all_atoms(d):
        return x0 + sum_k(n, k, d)
    if isinstance(x, Poly) and isinstance(x0, Poly) and p not in all_atoms(x):
        # a value recomputed at every step: the last one, and the initial value is the same formula one step before
        before = deep_subst(x, lambda a: P(k) - 1 if a is k else None)
        if deep_subst(before, lambda a: ZERO if a is k else None) == x0:
            return deep_subst(before, lambda a: n if a is k else None)
    t = close("iter", (n, x0), (k, p), [x], sort)
    return P(t) if sort in ("int", "real") else t


def concat_(a, b):
    if a.op == "vecof" and not a.args:
        return b
    if b.op == "vecof" and not b.args:
        return a
    if a.op == "vecof" and b.op == "vecof":
        return mk("vecof", *a.args, *b.args)
    return mk("concat", a, b)


def ite(c, a, b):
    if c is TRUE or a is b or a == b:
        return a
    if c is FALSE:
        return b
    if c.op == "not":
        return ite(c.args[0], b, a)
    if isinstance(a, Poly) and isinstance(b, Poly):
        d = a - b
        if c.op == "cmp" and c.args[0] == "==" and not d.is_const():
            # a conditional on an equation under which both values agree
            e = terms.solve_eq(c.args[1], 0, {})
            if e is not None and e[0] in d.atoms() and deep_subst(d, lambda t: e[1] if t is e[0] else None) == ZERO:
                return b
        if d.is_const():
            return b + P(mk("ite", c, ONE, ZERO, sort="int")).scale(d.const())
        return P(mk("ite", c, a, b, sort="int" if is_int_poly(a) and is_int_poly(b) else "real"))
    if isinstance(a, T) and isinstance(b, T) and a.sort == "bool" and b.sort == "bool":
        return bor(band(c, a), band(bnot(c), b))
    return mk("ite", c, a, b)


def ind(c):
    return ite(c, ONE, ZERO)


def _rebind(make, nb=1):
    def f(out, *rest):
        bound, bodies = rest[:nb], rest[nb:]
        fr = [fresh(b.sort, 0 if i == 0 else None) for i, b in enumerate(bound)]
        ren = dict(zip(bound, fr))
        return make(out, fr, [deep_subst(b, ren.get) for b in bodies])
    return f


CTOR["sum"] = _rebind(lambda o, v, b: sum_k(o, v[0], b[0]))
CTOR["len"] = lambda t: seq_len(t) if isinstance(t, T) else mk("len", t, sort="int")
CTOR["pick"] = lambda t, i: inst(t, P(i))
CTOR["prod"] = _rebind(lambda o, v, b: prod_k(o, v[0], b[0]))
CTOR["mapvec"] = _rebind(lambda o, v, b: mapvec_k(o, v[0], b[0]))
CTOR["filtermap"] = _rebind(lambda o, v, b: filtermap_k(o, v[0], b[0], b[1]))
CTOR["first"] = _rebind(lambda o, v, b: first_k(v[0], b[0]))
CTOR["iter"] = _rebind(lambda o, v, b: iter_k(o[0], o[1], v[0], v[1], b[0]), 2)
CTOR["concat"] = concat_
CTOR["ite"] = ite
terms.BINDERS.update(BINDERS)

ATOM_DOMS = terms.ATOM_DOMS


_generic = {}


def generic(a):
    """the body of a sum at an arbitrary index (one variable per nesting depth, about which no store knows anything)"""
    r = _generic.get(a)
    if r is None:
        k = mk("var", "any:" + a.args[1].args[0], 0, None, sort="int")
        r = _generic[a] = inst(a, P(k))
    return r


def _sum_dom(s, a, depth):
    if depth <= 0:
        return TOP
    b = s.bounds(generic(a), depth - 2)
    n = s.bounds(a.args[0], depth - 2)
    if b.empty() or n.empty():
        return TOP
    n = n.inter(drange(0, None))
    if n.empty():
        return TOP
    return dmul(n.hull(), b.hull())


ATOM_DOMS["sum"] = _sum_dom


def _sum_linear(s, a, depth):
    """l <= x(k) <= h gives l*n <= sum <= h*n"""
    b = s.bounds(generic(a), depth - 2)
    if b.empty():
        return None
    n = P(a.args[0])
    l, h = b.lo()[0], b.hi()[0]
    return (None if abs(l) == float("inf") else n.scale(l), None if abs(h) == float("inf") else n.scale(h))


terms.LINEAR_BOUNDS["sum"] = _sum_linear
ATOM_DOMS["first"] = lambda s, a, depth: drange(0, None)


def _ite_dom(s, a, depth):
    x, y = s.bounds(a.args[1], depth - 1), s.bounds(a.args[2], depth - 1)
    return x.union(y, a.sort == "int")


ATOM_DOMS["ite"] = _ite_dom


# -- semantic equality -----------------------------------------------------------------------------------

_has = {}
DEEP = set(BINDERS) | {"ite"}


def has_deep(x):
    if isinstance(x, Poly):
        return any(has_deep(a) for a in x.atoms())
    if isinstance(x, tuple):
        return any(has_deep(a) for a in x)
    if isinstance(x, T):
        r = _has.get(x)
        if r is None:
            r = x.op in DEEP or any(has_deep(a) for a in x.args if isinstance(a, (T, Poly, tuple)))
            _has[x] = r
        return r
    return False


def conds_of(x, acc, bound=False):
    """conditions of the ite's that are not under a binder"""
    if isinstance(x, Poly):
        for a in x.atoms():
            conds_of(a, acc)
    elif isinstance(x, tuple):
        for a in x:
            conds_of(a, acc)
    elif isinstance(x, T):
        if x.op in BINDERS:
            conds_of(x.args[0], acc)
            return acc
        if x.op == "ite":
            if x.args[0] not in acc:
                acc.append(x.args[0])
        for a in x.args:
            if isinstance(a, (T, Poly, tuple)):
                conds_of(a, acc)
    return acc


def under(st, c, fuel):
    """the stores refining st on formula c both ways: [(store, truth)]"""
    return [(x, tv) for tv in (True, False) for x in st.assume(c, tv)]


def resolve_ites(x, c, tv):
    def f(a):
        if isinstance(a, T) and a.op == "ite" and a.args[0] is c:
            return deep_subst(a.args[1] if tv else a.args[2], f)
        return None
    return deep_subst(x, f)


def resolve_known(x, s):
    """conditionals decided in store s"""
    def f(a):
        if isinstance(a, T) and a.op == "ite":
            tv = s.truth(a.args[0])
            if tv is not None:
                return deep_subst(a.args[1] if tv else a.args[2], f)
        return None
    return deep_subst(x, f)


def open_ites(x):
    """the conditionals outside of bound-variable terms"""
    if isinstance(x, Poly):
        return {y for a in x.atoms() for y in open_ites(a)}
    if not isinstance(x, T) or x.op == "var":
        return set()
    r = {x} if x.op == "ite" else set()
    for y in x.args[:1] if x.op in BINDERS else x.args:
        r |= open_ites(y)
    return r


def difference_cycle(s):
    """the difference constraints a - b <= c (and a <= c, -b <= c) of the store contradict each other"""
    edges = {}

    def edge(u, v, c):      # u - v <= c
        if c != inf and edges.get((v, u), inf) > c:
            edges[(v, u)] = c
    for q, d in s.c.items():
        ts = sorted(q.d.items(), key=lambda t: -t[1])
        if len(ts) > 2 or any(len(m) != 1 or m[0][1] != 1 for m, c in ts) or [c for m, c in ts] not in ([1], [1, -1]):
            continue
        a = ts[0][0][0][0]
        b = ts[1][0][0][0] if len(ts) == 2 else None
        edge(a, b, d.hi()[0])
        edge(b, a, -d.lo()[0])
    nodes = {x for e in edges for x in e}
    for a in nodes:
        if a is not None:
            d = s.bounds(P(a))
            edge(a, None, d.hi()[0])
            edge(None, a, -d.lo()[0])
    dist = {x: 0 for x in nodes}
    for _ in range(len(nodes)):
        ch = False
        for (v, u), c in edges.items():
            if v in dist and u in dist and dist[v] + c < dist[u]:
                dist[u] = dist[v] + c
                ch = True
        if not ch:
            return False
    return bool(nodes)


def impossible(s, depth=4):
    """no point satisfies the store, seen by adding up its difference constraints or by deciding the conditionals that
    occur in its relations"""
    if difference_cycle(s):
        return True
    if depth == 0:
        return False
    at_once = {a: ZERO for q in s.c for a in all_atoms(q) if a.op == "first" and s.truth(inst(a, ZERO)) is True}
    if at_once:
        # searches that stop at once
        for q, d in list(s.c.items()):
            r = deep_subst(q, at_once.get)
            if r != q:
                s = s.refine(r, d)
                if s is None:
                    return True
    for q in list(s.c):
        for a in sorted(open_ites(q), key=lambda x: x.id):
            for tv in (True, False):
                for x in s.assume(a.args[0], tv):
                    for q2, d in list(x.c.items()):
                        if a in all_atoms(q2):
                            r = resolve_known(q2, x)
                            if r != q2:
                                x = x.copy()
                                del x.c[q2]
                                x = x.refine(r, d)
                                if x is None:
                                    break
                    if x is not None and not impossible(x, depth - 1):
                        return False
            return True
    return False


def splitter(s, c):
    """c, or an undecided literal of a compound condition"""
    while isinstance(c, T) and c.op in ("and", "or", "not"):
        u = [a for a in c.args if s.truth(a) is None]
        if not u:
            return None
        c = u[0]
    return c


def cases(s, cs, xs, literals=False):
    """the values xs in each case of the first of the conditions cs: [(store, xs)]"""
    c = cs[0]
    if literals and c.op in ("and", "or", "not"):
        lit = splitter(s, c)
        if lit is not None:
            return [(y, [resolve_known(x, y) for x in xs]) for y, tv in under(s, lit, 0)]
    return [(y, [resolve_ites(x, c, tv) for x in xs]) for y, tv in under(s, c, 0)]


def contains(x, y):
    return y in all_atoms(x)


def term_equal(s, a, b, fuel=6):
    """a and b (terms, polynomials, formulas, tuples) certainly denote the same value in store s"""
    if a is b or a == b:
        return True
    if fuel <= 0:
        return False
    if isinstance(a, Poly) or isinstance(b, Poly):
        if isinstance(a, T) and a.sort not in ("int", "real") or isinstance(b, T) and b.sort not in ("int", "real"):
            return split_equal(s, a, b, fuel)
        if not isinstance(a, (Poly, T)) or not isinstance(b, (Poly, T)):
            return False
        return poly_equal(s, P(a), P(b), fuel)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(term_equal(s, x, y, fuel) for x, y in zip(a, b))
    if not isinstance(a, T) or not isinstance(b, T):
        return a == b
    if a.sort == "bool" and b.sort == "bool":
        return formula_equal(s, a, b, fuel)
    if a.sort in ("int", "real") and b.sort in ("int", "real"):
        if a.op != b.op or a.op in DEEP:
            return poly_equal(s, P(a), P(b), fuel)
    if is_seq(a) or is_seq(b):
        if seq_equal(s, a, b, fuel):
            return True
    if (a.op == "date") != (b.op == "date") and "ite" not in (a.op, b.op):
        # a date is determined by its serial number
        x, y = (P(t.args[0]) if t.op == "date" else P(mk("serial", t, sort="int")) for t in (a, b))
        if s.equal(x, y):
            return True
    if a.op == b.op and len(a.args) == len(b.args) and a.sort == b.sort:
        if a.op in BINDERS:
            if binder_equal(s, a, b, fuel):
                return True
        elif a.op != "ite" and all(term_equal(s, x, y, fuel) if isinstance(x, (T, Poly, tuple)) and isinstance(y, (T, Poly, tuple)) else x == y for x, y in zip(a.args, b.args)):
            return True
    return split_equal(s, a, b, fuel)


def split_equal(s, a, b, fuel):
    cs = conds_of(b, conds_of(a, []))
    if not cs:
        return False
    return all(term_equal(x, u, v, fuel - 1) for x, (u, v) in cases(s, cs, (a, b)))


def binder_equal(s, a, b, fuel):
    """same binder, same count, same body under a fresh index"""
    k = fresh()
    if not term_equal(s, a.args[0], b.args[0], fuel - 1):
        return False
    s2 = s
    if a.op not in ("first", "iter"):
        s2 = s.refine(P(k) - P(a.args[0]), drange(None, -1))
        if s2 is None:
            return True
    vals = [P(k)]
    if BINDERS[a.op] == 2:
        p = fresh(a.args[2].sort, None)
        vals.append(P(p) if p.sort in ("int", "real") else p)
    x, y = inst(a, *vals), inst(b, *vals)
    if a.op == "iter" and isinstance(x, (Poly, T)) and isinstance(y, (Poly, T)):
        # by induction both accumulators are p at step k, also where a body mentions the other recurrence
        x, y = (deep_subst(z, at_step(o, k, p).get) for z, o in ((x, b), (y, a)))
    if a.op == "first":
        return term_equal(s2, x, y, fuel - 1) or same_first(s, a, b, x, y, k) or same_first(s, b, a, y, x, k)
    if isinstance(x, list):
        # filtermap: equal conditions; elements equal where it holds
        if not term_equal(s2, x[0], y[0], fuel - 1):
            return False
        return all(term_equal(s3, x[1], y[1], fuel - 1) for s3 in s2.assume(x[0], True))
    return term_equal(s2, x, y, fuel - 1)


def same_first(s, a, b, x, y, k):
    """x (the condition of search a) implies y (that of b), so b stops first; and where b stops, a stops too"""
    s = s.refine(P(k), drange(0, None))
    if any(z for t in s.assume(x, True) for z in t.assume(y, False)):
        return False
    for t in s.assume(inst(b, P(b)), True):
        for z in t.assume(inst(a, P(b)), False):
            z = z.refine(P(a) - P(b), drange(1, None))
            if z is not None and not difference_cycle(z):
                return False
    return True


def at_step(t, k, p):
    """{the value of recurrence t after k steps: p}"""
    fr = [fresh(b.sort, 0 if i == 0 else None) for i, b in enumerate(t.args[1:3])]
    x = close("iter", (P(k), t.args[0][1]), fr, [inst(t, *[P(f) if f.sort in ("int", "real") else f for f in fr])], t.sort)
    return {x: P(p) if p.sort in ("int", "real") else p}


def alias(s, f, words=()):
    """f with its bound-variable terms replaced by semantically equal ones of the store's facts (or of words)"""
    have = []
    for k in list(s.c) + list(words):
        for a in all_atoms(k):
            if a.op in BINDERS and bdepth(a.args[0]) == 0 and a not in have:
                have.append(a)
    ren = {}

    def g(a):
        if isinstance(a, T) and a.op in BINDERS and a.op != "filtermap" and a.op != "mapvec":
            if a in ren:
                return ren[a]
            r = None
            if a not in have:
                for b in have:
                    if b.op == a.op and b.sort == a.sort and binder_equal(s, a, b, 6):
                        r = P(b) if a.sort in ("int", "real") else b
                        break
            ren[a] = r
            return r
        return None
    return deep_subst(f, g)


def unify(s, d, cs, fuel):
    """d with the recurrences of its conditions cs replaced by semantically equal ones"""
    xs = sorted({x for c in cs for x in all_atoms(c) if x.op == "iter" and bdepth(x.args[0]) == 0}, key=lambda x: x.id)
    rep = {}
    for i, x in enumerate(xs):
        for y in xs[i + 1:]:
            if x not in rep and y not in rep and x.sort == y.sort and binder_equal(s, x, y, max(fuel - 1, 6)):
                rep[y] = P(x) if x.sort in ("int", "real") else x
    return deep_subst(d, rep.get) if rep else d


def formula_equal(s, a, b, fuel):
    for f, g in ((a, b), (b, a)):
        for x in s.assume(f, True):
            for y in x.assume(g, False):
                if not contradictory(y, fuel):
                    return False
    return True


def contradictory(s, fuel):
    """two recorded facts about semantically equal terms disagree"""
    if fuel <= 0:
        return False
    items = [(k, d) for k, d in s.c.items() if k.atom() is not None and (k.atom().op not in ("var",))]
    for i, (k, d) in enumerate(items):
        for k2, d2 in items[i + 1:]:
            a, b = k.atom(), k2.atom()
            if a.op == b.op and d.inter(d2).empty():
                if a.op == "ty":
                    a, b = a.args[0], b.args[0]
                if isinstance(a, T) and isinstance(b, T) and a.op == b.op and len(a.args) == len(b.args) and a.op not in BINDERS and \
                        all(term_equal(s, x, y, fuel - 2) if isinstance(x, (T, Poly, tuple)) and isinstance(y, (T, Poly, tuple)) else x == y for x, y in zip(a.args, b.args)):
                    return True
    return False


def zero_now(s, d):
    if not d.d:
        return True
    b = s.bounds(d)
    if b.empty() or b.singleton() == 0:
        return True
    d = s.simplify(s.canon(d))
    if not d.d or s.bounds(d).singleton() == 0:
        return True
    return not expand_den(d).d


def one_sum(s, d, fuel):
    """a linear combination of sums over one range, all terms of which vanish"""
    k = fresh()
    n, body, cnt = None, ZERO, 0
    for m, c in d.d.items():
        sums = [a for a, e in m if a.op == "sum" and e == 1]
        if len(sums) != 1:
            return None
        x = sums[0]
        if n is None:
            n = P(x.args[0])
        elif P(x.args[0]) != n:
            return None
        cnt += 1
        body = body + Poly({tuple(p for p in m if p[0] is not x): c}) * P(inst(x, P(k)))
    if cnt < 2:
        return None
    s2 = s.refine(P(k) - n, drange(None, -1))
    return s2 is None or poly_equal(s2, body, ZERO, max(fuel - 1, 10))


def poly_equal(s, a, b, fuel):
    d = a - b
    if zero_now(s, d):
        return True
    d = s.simplify(s.canon(d))
    if fuel <= 0 or not (has_deep(d) or any(x.op == y.op for x in d.atoms() for y in d.atoms() if x is not y)):
        return False
    # identify atoms that are semantically equal
    ats = sorted(d.atoms(), key=lambda a: a.id)
    rep = {}
    for i, x in enumerate(ats):
        if x in rep or x.op == "var":
            continue
        for y in ats[i + 1:]:
            if y in rep or y.op != x.op or len(y.args) != len(x.args) or x.op == "ite":
                continue
            if x.op in BINDERS:
                if binder_equal(s, x, y, fuel):
                    rep[y] = P(x)
            elif x.op not in ("idiv", "irem", "tab") and all(
                    term_equal(s, p, q, fuel - 1) if isinstance(p, (T, Poly, tuple)) and isinstance(q, (T, Poly, tuple)) else p == q for p, q in zip(x.args, y.args)):
                rep[y] = P(x)
    if rep:
        d = d.subst(rep.get)
        if zero_now(s, d):
            return True
    # conditionals
    cs = conds_of(d, [])
    if cs:
        d2 = unify(s, d, cs, fuel)
        if d2 != d:
            return zero_now(s, d2) or poly_equal(s, d2, ZERO, fuel - 1)
        return all(poly_equal(x, e, ZERO, fuel - 1) for x, (e,) in cases(s, cs, (d,)))
    m = one_sum(s, d, fuel)
    if m:
        return True
    # searches that stop at once, or not at once
    for x in list(d.atoms()):
        if x.op == "first":
            tr = s.truth(inst(x, ZERO))
            if tr is True:
                return poly_equal(s, d.subst(lambda t: ZERO if t is x else None), ZERO, fuel - 1)
    for x in list(d.atoms()):
        if x.op == "first" and s.truth(inst(x, ZERO)) is False:
            y = first_(lambda k: inst(x, k + 1)) + 1
            if poly_equal(s, d.subst(lambda t: y if t is x else None), ZERO, fuel - 2):
                return True
    # sums over shifted or reversed ranges
    sums = [x for x in d.atoms() if x.op == "sum"]
    for i, x in enumerate(sums):
        for y in sums:
            if x is y:
                continue
            n, m = P(x.args[0]), P(y.args[0])
            c = s.canon(n - m)
            if c.is_const() and isinstance(c.const(), int) and 0 < c.const() <= 4 and s.bounds(m).lo()[0] >= 0:
                e = int(c.const())
                k = fresh()
                s2 = s.refine(P(k) - m, drange(None, -1))
                for sh in range(e + 1):
                    if s2 is None or term_equal(s2, inst(x, P(k) + sh), inst(y, P(k)), fuel - 1):
                        z = P(y)
                        for j in range(sh):
                            z = z + inst(x, const(j))
                        for j in range(e - sh):
                            z = z + inst(x, n - 1 - j)
                        return poly_equal(s, d.subst(lambda t: z if t is x else None), ZERO, fuel - 1)
            if not c.d:
                k = fresh()
                s2 = s.refine(P(k) - m, drange(None, -1))
                if s2 is None or term_equal(s2, inst(x, n - 1 - P(k)), inst(y, P(k)), fuel - 1):
                    return poly_equal(s, d.subst(lambda t: P(y) if t is x else None), ZERO, fuel - 1)
    return False


# -- sequences -------------------------------------------------------------------------------------------

SEQ = {"mapvec", "filtermap", "vecof", "push", "concat", "insert"}


def is_seq(t):
    return isinstance(t, T) and t.op in SEQ


def seq_len(t):
    if t.op == "push" or t.op == "insert":
        return seq_len(t.args[0]) + 1
    if t.op in ("setelem", "sorted", "mutated_same_len"):
        return seq_len(t.args[0])
    if t.op == "mapvec":
        return P(t.args[0])
    if t.op == "filtermap":
        k = fresh()
        return sum_k(t.args[0], k, ind(inst(t, P(k))[0]))
    if t.op == "vecof":
        return const(len(t.args))
    if t.op in ("popped", "removed"):
        return seq_len(t.args[0]) - 1
    if t.op == "concat":
        return seq_len(t.args[0]) + seq_len(t.args[1])
    return P(mk("len", t, sort="int"))


def set_at(segs, c, w, s):
    """the segments with element c replaced by the single-element segment w; None where c cannot be located"""
    if not segs:
        return None
    n, cond, x, o = segs[0]
    if cond is not None:
        return None
    sign = lambda p: (p.const(), p.const()) if p.is_const() else (None, None) if s is None else (s.bounds(p).lo()[0], s.bounds(p).hi()[0])
    lo, hi = sign(c - n)
    if lo is not None and lo >= 0:
        r = set_at(segs[1:], c - n, w, s)
        return None if r is None else [segs[0]] + r
    if hi is not None and hi < 0 or len(segs) == 1:
        return [(c, None, x, None), w, (n - c - 1, None, (lambda k: x(P(k) + c + 1)), None)] + segs[1:]
    return None


def segments(t, s=None):
    """[(count, condition(k) or None, element(k), opaque term or None)]"""
    if t.op == "vecof":
        return [(ONE, None, (lambda k, x=x: x), None) for x in t.args]
    if t.op == "push":
        return segments(t.args[0], s) + [(ONE, None, (lambda k, x=t.args[1]: x), None)]
    if t.op == "insert" and t.args[1] == ZERO:
        return [(ONE, None, (lambda k, x=t.args[2]: x), None)] + segments(t.args[0], s)
    if t.op == "concat":
        return segments(t.args[0], s) + segments(t.args[1], s)
    if t.op == "mapvec":
        return [(P(t.args[0]), None, (lambda k: inst(t, k)), None)]
    if t.op == "setelem":
        x, c = t.args[0], P(t.args[1])
        r = set_at(segments(x, s), c, (ONE, None, (lambda k: t.args[2]), None), s) if x.op in ("setelem", "insert", "push", "concat", "vecof") else None
        if r is not None:
            return r
        return [(c, None, (lambda k: pick(x, k)), None), (ONE, None, (lambda k: t.args[2]), None), (seq_len(x) - c - 1, None, (lambda k: pick(x, P(k) + c + 1)), None)]
    if t.op in ("popped", "removed") and (t.op == "popped" or t.args[1] == ZERO):
        segs = segments(t.args[0], s)
        n, c, x, o = segs[-1 if t.op == "popped" else 0]
        if c is None and (len(segs) == 1 or n == ONE or s is not None and s.bounds(n).lo()[0] >= 1):
            if t.op == "popped":
                return segs[:-1] + ([] if n == ONE else [(n - 1, None, x, None)])
            return ([] if n == ONE else [(n - 1, None, (lambda k: x(P(k) + 1)), None)]) + segs[1:]
    if t.op == "filtermap":
        return [(P(t.args[0]), (lambda k: inst(t, k)[0]), (lambda k: inst(t, k)[1]), None)]
    return [(seq_len(t), None, (lambda k: mk("elem", t, P(k))), t)]


def shift(seg, by):
    n, c, x, o = seg
    return (n - by, None if c is None else (lambda k: c(P(k) + by)), (lambda k: x(P(k) + by)), None)


def seq_equal(s, a, b, fuel):
    return segs_equal(s, segments(a, s), segments(b, s), fuel + 4)


def same_elem(s, x, y, fuel, splits=8):
    if splits:
        # decide the conditionals first: their number does not count as depth
        cs = conds_of(y, conds_of(x, []))
        if cs:
            return all(same_elem(z, u, v, fuel, splits - 1) for z, (u, v) in cases(s, cs, (resolve_known(x, s), resolve_known(y, s)), True))
    if term_equal(s, x, y, fuel):
        return True
    # an element of a sequence of numbers or structures may be named with or without its type
    u = strip(x)
    v = strip(y)
    return (u is not x or v is not y) and term_equal(s, u, v, fuel)


def strip(x):
    if isinstance(x, Poly):
        a = x.atom()
        if a is not None:
            x = a
    if isinstance(x, T) and x.op == "ty":
        return x.args[0]
    return x


def segs_equal(s, A, B, fuel):
    if fuel <= 0:
        return False

    def drop(L):
        while L and s.bounds(L[0][0]).singleton() == 0 or (L and s.canon(P(L[0][0])) == ZERO):
            L = L[1:]
        return L
    A, B = drop(A), drop(B)
    if not A and not B:
        return True
    if not A or not B:
        L = A or B
        n, c, x, o = L[0]
        if c is None:
            return s.bounds(n).empty() or (s.bounds(n).hi()[0] <= 0 and segs_equal(s, L[1:], [], fuel - 1))
        k = fresh()
        s2 = s.refine(P(k) - n, drange(None, -1))
        if s2 is not None and s2.assume(c(P(k)), True):
            return False
        return segs_equal(s, L[1:], [], fuel - 1)
    a, b = A[0], B[0]
    if a[3] is not None and a[3] is b[3]:
        return segs_equal(s, A[1:], B[1:], fuel)
    if s.equal(a[0], b[0]):
        n = a[0]
        k = ZERO if n == ONE else P(fresh())
        s2 = s if n == ONE else s.refine(k - n, drange(None, -1))
        if s2 is None:
            return segs_equal(s, A[1:], B[1:], fuel)
        if a[1] is None and b[1] is None:
            return same_elem(s2, a[2](k), b[2](k), fuel) and segs_equal(s, A[1:], B[1:], fuel)
        ca = TRUE if a[1] is None else a[1](k)
        cb = TRUE if b[1] is None else b[1](k)
        if formula_equal(s2, ca, cb, fuel):
            if all(same_elem(y, a[2](k), b[2](k), fuel) for y in s2.assume(ca, True)):
                return segs_equal(s, A[1:], B[1:], fuel)
        if n == ONE:
            # a conditional single element: decide it
            c = ca if a[1] is not None else cb
            for y, tv in under(s, c, fuel):
                A2, B2 = A, B
                if a[1] is not None:
                    A2 = ([(ONE, None, a[2], None)] if tv else []) + A[1:]
                else:
                    B2 = ([(ONE, None, b[2], None)] if tv else []) + B[1:]
                if not segs_equal(y, A2, B2, fuel - 1):
                    return False
            return True
        return False
    f = cmp("<=", P(a[0]) - P(b[0]), True)
    for y, tv in under(s, f, fuel):
        if tv:
            # a is the shorter one
            if y.equal(a[0], b[0]):
                r = segs_equal(y, A, B, fuel - 1)
            else:
                r = segs_equal(y, A, [(a[0], b[1], b[2], None), shift(b, a[0])] + B[1:], fuel - 1)
        else:
            r = segs_equal(y, [(b[0], a[1], a[2], None), shift(a, b[0])] + A[1:], B, fuel - 1)
        if not r:
            return False
    return True


def _deep_equal(s, d):
    return has_deep(d) and poly_equal(s, d, ZERO, 6)


terms.DEEP_EQUAL.append(_deep_equal)
