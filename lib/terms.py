"""Value-numbering terms, polynomial normal forms and value-set domains.

Nothing in here executes code of the analysed crate: a term is a canonical name for the value an
expression of the MIR denotes, a Dom is the set of values it may take.
"""
from fractions import Fraction
from math import gcd, inf

# ------------------------------------------------------------------------------------------------
# Interned terms


class T:
    __slots__ = ("op", "args", "id", "sort", "h")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o


_tab = {}


def mk(op, *args, sort="any"):
    k = (op, args, sort)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.args, t.sort = op, args, sort
        t.id = len(_tab)
        t.h = hash(k)
        _tab[k] = t
    return t


def show(x):
    if isinstance(x, T):
        if x.op == "var":
            return str(x.args[0])
        if x.op == "cmp":
            return "(%s %s 0)" % (show(x.args[1]), x.args[0])
        return "%s(%s)" % (x.op, ", ".join(show(a) for a in x.args))
    if isinstance(x, Poly):
        return repr(x)
    if isinstance(x, tuple):
        if len(x) > 24:
            return "(%d elems)" % len(x)
        return "(" + ", ".join(show(a) for a in x) + ")"
    return str(x)


# ------------------------------------------------------------------------------------------------
# Polynomials over atoms (sort 'int' or 'real')


def _num(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


class Poly:
    __slots__ = ("d", "h", "_key")

    def __init__(self, d):
        self.d = d
        self.h = hash(frozenset(d.items()))
        self._key = None

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.h == o.h and self.d == o.d

    def is_const(self):
        return not self.d or (len(self.d) == 1 and () in self.d)

    def const(self):
        return self.d.get((), 0)

    def atom(self):
        """the atom if this is exactly 1*atom"""
        if len(self.d) == 1:
            (m, c), = self.d.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return None

    def atoms(self):
        s = set()
        for m in self.d:
            for a, _ in m:
                s.add(a)
        return s

    def __add__(self, o):
        o = P(o)
        d = dict(self.d)
        for m, c in o.d.items():
            v = d.get(m, 0) + c
            if v == 0:
                d.pop(m, None)
            else:
                d[m] = _num(v)
        return Poly(d)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.d.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) - self

    def scale(self, k):
        if k == 0:
            return ZERO
        return Poly({m: _num(c * k) for m, c in self.d.items()})

    def __mul__(self, o):
        o = P(o)
        if self.is_const():
            return o.scale(self.const())
        if o.is_const():
            return self.scale(o.const())
        d = {}
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                m = mmul(m1, m2)
                v = d.get(m, 0) + c1 * c2
                if v == 0:
                    d.pop(m, None)
                else:
                    d[m] = _num(v)
        return Poly(d)

    __rmul__ = __mul__

    def inv(self):
        """1/self over the reals"""
        if self.is_const():
            c = self.const()
            if c == 0:
                return atom("inv0", sort="real")
            return const(Fraction(1) / Fraction(c))
        if len(self.d) == 1:
            (m, c), = self.d.items()
            return Poly({tuple((a, -e) for a, e in m): _num(Fraction(1) / Fraction(c))})
        # factor out the leading coefficient and the common monomial content
        k, lead, c0 = self.normalize(keep_const=True)
        return Poly({((mk("poly", k, sort="real"), -1),): _num(Fraction(1) / Fraction(lead))})

    def __truediv__(self, o):
        return self * P(o).inv()

    def __rtruediv__(self, o):
        return P(o) * self.inv()

    def normalize(self, integer=False, keep_const=False):
        """self == lead*k + c with k free of constant term and canonically scaled"""
        c0 = 0 if keep_const else self.d.get((), 0)
        items = [(m, c) for m, c in self.d.items() if keep_const or m != ()]
        if not items:
            return ZERO, 1, c0
        items.sort(key=lambda x: monokey(x[0]))
        lead = items[0][1]
        if integer and all(isinstance(c, int) for _, c in items):
            g = 0
            for _, c in items:
                g = gcd(g, abs(c))
            lead = g if lead > 0 else -g
        k = Poly({m: _num(Fraction(c) / Fraction(lead)) for m, c in items})
        return k, lead, c0

    def __repr__(self):
        if not self.d:
            return "0"
        out = []
        for m, c in sorted(self.d.items(), key=lambda x: monokey(x[0])):
            ms = "*".join(show(a) + ("" if e == 1 else "^%s" % e) for a, e in m)
            if not ms:
                out.append(str(c))
            elif c == 1:
                out.append(ms)
            elif c == -1:
                out.append("-" + ms)
            else:
                out.append("%s*%s" % (c, ms))
        return " + ".join(out)

    def subst(self, f):
        """replace atoms by polys via f(atom)->Poly|None"""
        hit = False
        for a in self.atoms():
            if f(a) is not None:
                hit = True
        if not hit:
            return self
        r = ZERO
        for m, c in self.d.items():
            t = const(c)
            for a, e in m:
                q = f(a)
                if q is None:
                    q = Poly({((a, 1),): 1})
                if e > 0:
                    for _ in range(e):
                        t = t * q
                else:
                    for _ in range(-e):
                        t = t * q.inv()
            r = r + t
        return r


def monokey(m):
    return tuple((a.id, e) for a, e in m) if m else ()


def mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = {}
    for a, e in m1:
        d[a] = d.get(a, 0) + e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda x: x[0].id))


ZERO = Poly({})


def const(c):
    c = _num(c)
    if c == 0:
        return ZERO
    return Poly({(): c})


ONE = const(1)


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, T):
        return Poly({((x, 1),): 1})
    if isinstance(x, bool):
        return const(int(x))
    if isinstance(x, float):
        return fconst(x)
    return const(x)


def fconst(x):
    if isinstance(x, str):
        s = x
    else:
        s = repr(x)
    if "e-16" in s.lower() and abs(float(s)) == 2.0 ** -52:
        return const(Fraction(1 if float(s) > 0 else -1, 2 ** 52))      # f64::EPSILON
    if s in ("inf", "-inf", "nan", "NaN"):
        return P(mk("fspecial", s.lower(), sort="real"))
    return const(Fraction(s))


def atom(op, *args, sort="int"):
    return P(mk(op, *args, sort=sort))


def var(name, sort="int", lo=None, hi=None):
    return P(mk("var", name, lo, hi, sort=sort))


def is_int_poly(p):
    for m, c in p.d.items():
        if not isinstance(c, int):
            return False
        for a, e in m:
            if a.sort != "int" or e < 0:
                return False
    return True


def expand_den(p):
    """multiply p by the denominators that occur in it (sound for 'p == 0' tests where the
    denominators are non-zero)."""
    for _ in range(12):
        worst = {}
        for m in p.d:
            for a, e in m:
                if e < 0:
                    worst[a] = min(worst.get(a, 0), e)
        if not worst:
            # open up positive powers of packed polynomials
            packed = [a for a in p.atoms() if a.op == "poly"]
            if not packed:
                return p
            p = p.subst(lambda a: a.args[0] if a.op == "poly" else None)
            continue
        d = {}
        mult = tuple(sorted(((a, -e) for a, e in worst.items()), key=lambda x: x[0].id))
        for m, c in p.d.items():
            d[mmul(m, mult)] = c
        p = Poly(d)
    return p


# ------------------------------------------------------------------------------------------------
# Domains: sorted disjoint intervals; an endpoint is (value, eps) with eps in -1,0,1 (open ends)

NINF = (-inf, 0)
PINF = (inf, 0)


class Dom:
    __slots__ = ("iv",)

    def __init__(self, iv):
        self.iv = iv

    def empty(self):
        return not self.iv

    def lo(self):
        return self.iv[0][0]

    def hi(self):
        return self.iv[-1][1]

    def singleton(self):
        if len(self.iv) == 1 and self.iv[0][0] == self.iv[0][1] and self.iv[0][0][1] == 0 and abs(self.iv[0][0][0]) != inf:
            return self.iv[0][0][0]
        return None

    def inter(self, o):
        r = []
        i = j = 0
        a, b = self.iv, o.iv
        while i < len(a) and j < len(b):
            lo = max(a[i][0], b[j][0])
            hi = min(a[i][1], b[j][1])
            if lo <= hi:
                r.append((lo, hi))
            if a[i][1] < b[j][1]:
                i += 1
            else:
                j += 1
        return Dom(tuple(r))

    def union(self, o, integer=False):
        xs = sorted(self.iv + o.iv)
        r = []
        for lo, hi in xs:
            if r:
                plo, phi = r[-1]
                adj = lo <= phi
                if not adj:
                    if integer:
                        adj = lo[0] <= phi[0] + 1
                    else:
                        adj = lo[0] == phi[0] and lo[1] - phi[1] <= 1
                if adj:
                    if hi > phi:
                        r[-1] = (plo, hi)
                    continue
            r.append((lo, hi))
        return Dom(tuple(r))

    def __eq__(self, o):
        return isinstance(o, Dom) and self.iv == o.iv

    def __hash__(self):
        return hash(self.iv)

    def scale(self, k, c=0, integer=False):
        """{k*x + c}"""
        if k == 0:
            return dconst(c)
        r = []
        for (a, ea), (b, eb) in self.iv:
            if k > 0:
                r.append(((_mulc(a, k, c), ea), (_mulc(b, k, c), eb)))
            else:
                r.append(((_mulc(b, k, c), -eb), (_mulc(a, k, c), -ea)))
        if k < 0:
            r.reverse()
        return Dom(tuple(r))

    def hull(self):
        if not self.iv:
            return self
        return Dom(((self.iv[0][0], self.iv[-1][1]),))

    def values(self, limit=4000):
        """list of the integers in the domain, or None when too many"""
        n = 0
        for (a, _), (b, _) in self.iv:
            if abs(a) == inf or abs(b) == inf:
                return None
            n += b - a + 1
            if n > limit:
                return None
        out = []
        for (a, _), (b, _) in self.iv:
            out.extend(range(int(a), int(b) + 1))
        return out

    def __contains__(self, v):
        e = (v, 0)
        return any(lo <= e <= hi for lo, hi in self.iv)

    def __repr__(self):
        out = []
        for (a, ea), (b, eb) in self.iv:
            if a == b:
                out.append("{%s}" % a)
            else:
                out.append("%s%s,%s%s" % ("[" if ea == 0 else "(", a, b, "]" if eb == 0 else ")"))
        return "U".join(out) if out else "empty"


def _mulc(a, k, c):
    if abs(a) == inf:
        return a if k > 0 else -a
    return _num(Fraction(a) * k + c) if not (isinstance(a, int) and isinstance(k, int) and isinstance(c, int)) else a * k + c


TOP = Dom(((NINF, PINF),))
EMPTY = Dom(())


def dconst(c):
    return Dom((((c, 0), (c, 0)),))


def drange(lo, hi):
    if lo is None:
        lo = -inf
    if hi is None:
        hi = inf
    if lo > hi:
        return EMPTY
    return Dom((((lo, 0), (hi, 0)),))


def dset(vals):
    d = EMPTY
    for lo, hi in ranges(sorted(set(vals))):
        d = Dom(d.iv + (((lo, 0), (hi, 0)),))
    return d


def ranges(vs):
    r = []
    for v in vs:
        if r and v == r[-1][1] + 1:
            r[-1] = (r[-1][0], v)
        else:
            r.append((v, v))
    return r


def dadd(a, b):
    if a.empty() or b.empty():
        return EMPTY
    s = a.singleton()
    if s is not None:
        return b.scale(1, s)
    s = b.singleton()
    if s is not None:
        return a.scale(1, s)
    if len(a.iv) * len(b.iv) <= 64:
        r = EMPTY
        for x in a.iv:
            for y in b.iv:
                r = r.union(Dom(((_eadd(x[0], y[0], 1), _eadd(x[1], y[1], -1)),)))
        return r
    return Dom(((_eadd(a.lo(), b.lo(), 1), _eadd(a.hi(), b.hi(), -1)),))


def _eadd(x, y, openv):
    if abs(x[0]) == inf or abs(y[0]) == inf:
        return (x[0] if abs(x[0]) == inf else y[0], 0)
    return (x[0] + y[0], openv if (x[1] or y[1]) else 0)


def dmul(a, b):
    if a.empty() or b.empty():
        return EMPTY
    s = a.singleton()
    if s is not None:
        return b.scale(s)
    s = b.singleton()
    if s is not None:
        return a.scale(s)
    cand = []
    for x in (a.lo()[0], a.hi()[0]):
        for y in (b.lo()[0], b.hi()[0]):
            if x == 0 or y == 0:
                cand.append(0)
            else:
                cand.append(x * y)
    lo, hi = min(cand), max(cand)
    return drange(lo, hi)


def dcmp(rel, integer):
    """domain of x satisfying x rel 0"""
    if rel == "==":
        return dconst(0)
    if rel == "!=":
        if integer:
            return Dom(((NINF, (-1, 0)), ((1, 0), PINF)))
        return Dom(((NINF, (0, -1)), ((0, 1), PINF)))
    if rel == "<=":
        return drange(None, 0)
    if rel == ">=":
        return drange(0, None)
    if rel == "<":
        return drange(None, -1) if integer else Dom(((NINF, (0, -1)),))
    if rel == ">":
        return drange(1, None) if integer else Dom((((0, 1), PINF),))
    raise ValueError(rel)


def intround(d):
    """tighten to integers"""
    r = []
    import math
    for (a, ea), (b, eb) in d.iv:
        if abs(a) != inf:
            na = math.ceil(a)
            if na == a and ea > 0:
                na += 1
            a = na
        if abs(b) != inf:
            nb = math.floor(b)
            if nb == b and eb < 0:
                nb -= 1
            b = nb
        if a <= b:
            r.append(((a, 0), (b, 0)))
    return Dom(tuple(r))


# ------------------------------------------------------------------------------------------------
# Boolean formulas over comparisons

TRUE = mk("true", sort="bool")
FALSE = mk("false", sort="bool")


def cmp(rel, p, integer=None):
    """formula p rel 0 (canonicalised to ==, <=, <, and their negations)"""
    p = P(p)
    if integer is None:
        integer = is_int_poly(p)
    if p.is_const():
        c = p.const()
        ok = {"==": c == 0, "!=": c != 0, "<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0}[rel]
        return TRUE if ok else FALSE
    if rel == "!=":
        return bnot(cmp("==", p, integer))
    k, lead, c = p.normalize(integer)
    # lead*k + c rel 0
    if lead < 0:
        p = -p
        rel = {"==": "==", "<": ">", "<=": ">=", ">": "<", ">=": "<="}[rel]
        lead, c = -lead, -c
    # k + c/lead rel 0
    q = k + const(Fraction(c) / Fraction(lead))
    if rel == ">":
        return bnot(cmp_raw("<=", q, integer))
    if rel == ">=":
        return bnot(cmp_raw("<", q, integer))
    return cmp_raw(rel, q, integer)


def cmp_raw(rel, q, integer):
    if integer:
        c = q.const()
        if rel == "==" and isinstance(c, Fraction):
            return FALSE
        if rel == "<":
            # k < -c  <=>  k <= ceil(-c)-1
            import math
            q = (q - const(c)) - const(math.ceil(-c) - 1)
            rel = "<="
        elif rel == "<=" and isinstance(c, Fraction):
            import math
            q = (q - const(c)) - const(math.floor(-c))
    return mk("cmp", rel, q, integer, sort="bool")


def bnot(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "and":
        return bor(*[bnot(x) for x in a.args])
    if a.op == "or":
        return band(*[bnot(x) for x in a.args])
    return mk("not", a, sort="bool")


def _junction(op, xs, unit, zero):
    out = []
    seen = set()
    for x in xs:
        for y in (x.args if x.op == op else (x,)):
            if y is zero:
                return zero
            if y is unit or y in seen:
                continue
            if (y.args[0] if y.op == "not" else None) in seen or (y.op not in ("not", "and", "or") and mk("not", y, sort="bool") in seen):
                return zero
            seen.add(y)
            out.append(y)
    if not out:
        return unit
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.id)
    return mk(op, *out, sort="bool")


def band(*xs):
    return _junction("and", xs, TRUE, FALSE)


def bor(*xs):
    return _junction("or", xs, FALSE, TRUE)


def batom(op, *args):
    """uninterpreted boolean as 0/1 atom"""
    a = mk(op, *args, sort="int")
    return cmp("==", P(a) - 1, True)


BOOLOPS = set()


# ------------------------------------------------------------------------------------------------
# Store: value sets for normalised terms


ATOM_RANGE = {}
CANON = {}                             # op -> f(store, atom) -> equal polynomial in the store, or None
ATOM_DOMS = {}                         # op -> f(store, atom, depth) -> Dom
LINEAR_BOUNDS = {}                     # op -> f(store, atom, depth) -> (lower, upper) polynomials or None
DEEP_EQUAL = []                        # fallback equality of polynomials with bound variables (loops.py)


class FinDomain:
    """A finite domain of inputs: n points; every atom over the inputs is a column of n values.  A set of
    points is an n-bit integer.  Used as the (exact) powerset domain over the points."""

    def __init__(self, n, cols, ops):
        self.n = n
        self.full = (1 << n) - 1
        self.cols = dict(cols)      # atom -> list
        self.ops = ops              # op -> f(args...) -> value, args evaluated columnwise
        self.pc = {}
        self.vm = {}
        self.known = {}

    def knows_atom(self, a):
        r = self.known.get(a)
        if r is None:
            if a in self.cols:
                r = True
            elif a.op in self.ops or a.op in ("idiv", "irem", "tab", "ty", "poly", "abs", "max", "min"):
                r = all(self.knows(x) if isinstance(x, Poly) else self.knows_atom(x) if isinstance(x, T) else True for x in a.args)
            else:
                r = False
            self.known[a] = r
        return r

    def knows(self, p):
        r = self.known.get(p)
        if r is None:
            r = all(self.knows_atom(a) for a in p.atoms())
            self.known[p] = r
        return r

    def col_atom(self, a):
        c = self.cols.get(a)
        if c is not None:
            return c
        args = [self.col(x) if isinstance(x, Poly) else self.col_atom(x) if isinstance(x, T) else x for x in a.args]
        op = a.op
        if op == "idiv":
            q = args[1]
            c = [_tdiv0(x, y) for x, y in zip(args[0], q)]
        elif op == "irem":
            c = [_trem0(x, y) for x, y in zip(args[0], args[1])]
        elif op == "tab":
            t = args[0]
            n = len(t)
            c = [t[i] if 0 <= i < n else None for i in args[1]]
            if a.sort == "int":
                c = [None if x is None else int(x) for x in c]
        elif op in ("ty", "poly"):
            c = args[0]
        elif op == "abs":
            c = [abs(x) for x in args[0]]
        elif op in ("max", "min"):
            c = [(max if op == "max" else min)(x) for x in zip(*args)]
        else:
            f = self.ops[op]
            ca = [x if isinstance(x, list) else [x] * self.n for x in args]
            c = [f(*x) for x in zip(*ca)]
        self.cols[a] = c
        return c

    def col(self, p):
        p = P(p)
        c = self.pc.get(p)
        if c is None:
            k = p.d.get((), 0)
            c = [k] * self.n
            for m, co in p.d.items():
                if m == ():
                    continue
                if len(m) == 1 and m[0][1] == 1:
                    cc = self.col_atom(m[0][0])
                    c = [None if y is None or x is None else x + co * y for x, y in zip(c, cc)]
                else:
                    t = [co] * self.n
                    for at, e in m:
                        cc = self.col_atom(at)
                        t = [None if y is None or x is None else x * y ** e if e > 0 else Fraction(x) / y ** -e for x, y in zip(t, cc)]
                    c = [None if y is None or x is None else x + y for x, y in zip(c, t)]
            self.pc[p] = c
        return c

    def valmasks(self, p):
        r = self.vm.get(p)
        if r is None:
            g = {}
            for i, v in enumerate(self.col(p)):
                g.setdefault(v, []).append(i)
            nb = (self.n + 7) // 8
            if len(g) > 400:
                r = (None, g)
            else:
                r = ({}, None)
                for v, ix in g.items():
                    ba = bytearray(nb)
                    for i in ix:
                        ba[i >> 3] |= 1 << (i & 7)
                    r[0][v] = int.from_bytes(ba, "little")
            self.vm[p] = r
        return r

    def tomask(self, bools):
        return int("".join(["1" if x else "0" for x in bools])[::-1] or "0", 2)

    def points(self, mask):
        s = bin(mask)[2:][::-1]
        i = s.find("1")
        while i >= 0:
            yield i
            i = s.find("1", i + 1)

    def domask(self, p, dom):
        key = ("dm", p, dom)
        r = self.vm.get(key)
        if r is None:
            vm = self.valmasks(p)[0]
            if vm is not None:
                r = 0
                for v, m in vm.items():
                    if v is not None and v in dom:
                        r |= m
            else:
                memo = {}
                r = self.tomask([v is not None and (memo[v] if v in memo else memo.setdefault(v, v in dom)) for v in self.col(p)])
            self.vm[key] = r
        return r

    def bounds(self, p, mask):
        key = ("b", p, mask)
        r = self.vm.get(key)
        if r is None:
            vm = self.valmasks(p)[0]
            if vm is not None:
                vs = [v for v, m in vm.items() if m & mask]
            else:
                c = self.col(p)
                vs = {c[i] for i in self.points(mask)} if mask != self.full else set(c)
            if None in vs:
                r = TOP
            elif not vs:
                r = EMPTY
            elif len(vs) <= 1300:
                r = dset(vs)
            else:
                r = drange(min(vs), max(vs))
            self.vm[key] = r
        return r

    def fmask(self, f):
        """points at which formula f holds"""
        if f is TRUE:
            return self.full
        if f is FALSE:
            return 0
        if f.op == "not":
            return self.full & ~self.fmask(f.args[0])
        if f.op == "cmp":
            return self.domask(P(f.args[1]), dcmp(f.args[0], f.args[2]))
        if f.op == "and":
            r = self.full
            for g in f.args:
                r &= self.fmask(g)
            return r
        if f.op == "or":
            r = 0
            for g in f.args:
                r |= self.fmask(g)
            return r
        raise ValueError(f)


def _tdiv0(a, c):
    if a is None or not c:
        return None
    q = abs(a) // abs(c)
    return q if (a < 0) == (c < 0) else -q


def _trem0(a, c):
    if a is None or not c:
        return None
    return a - c * _tdiv0(a, c)


NEST = [0]          # depth of nested equality rewriting


def pick(t, i):
    """element i of a sequence with elements set one by one, where constants decide which it is"""
    while t.op == "setelem":
        d = P(i) - P(t.args[1])
        if not d.d:
            return t.args[2]
        if not d.is_const():
            return mk("elem", t, P(i))
        t = t.args[0]
    if t.op == "mapvec":
        return CTOR["pick"](t, i)
    if t.op == "vecof" and P(i).is_const() and 0 <= P(i).const() < len(t.args):
        return t.args[int(P(i).const())]
    return mk("elem", t, P(i))


_abs = {}
_NOABS = frozenset()


def abs_keys(x):
    """normalised arguments of the absolute values that occur in x"""
    if isinstance(x, Poly):
        ks = [abs_keys(a) for a in x.atoms()]
    elif isinstance(x, tuple):
        ks = [abs_keys(a) for a in x]
    elif isinstance(x, T):
        r = _abs.get(x)
        if r is not None:
            return r
        ks = [abs_keys(a) for a in x.args if isinstance(a, (T, Poly, tuple))]
        if x.op == "abs":
            p = P(x.args[0])
            ks.append(frozenset([p.normalize(is_int_poly(p))[0]]))
    else:
        return _NOABS
    ks = [k for k in ks if k]
    r = _NOABS if not ks else ks[0] if len(ks) == 1 else frozenset().union(*ks)
    if isinstance(x, T):
        _abs[x] = r
    return r


HEAVY = [0]         # what is known of polynomials with more terms, or of a degree beyond 3, is only what was assumed of them (0: no limit)


def heavy(k):
    return len(k.d) > HEAVY[0] or any(sum(abs(e) for _, e in m) > 3 for m in k.d)


class Store:
    __slots__ = ("c", "fd", "mask", "_eqs", "_kb")

    def __init__(self, c=None, fd=None, mask=None):
        self.c = c if c is not None else {}
        self.fd = fd
        self.mask = mask if mask is not None or fd is None else fd.full
        self._eqs = None
        self._kb = None

    def copy(self):
        return Store(dict(self.c), self.fd, self.mask)

    # -- queries -------------------------------------------------------------------------------
    def bounds(self, p, depth=3):
        p = P(p)
        if p.is_const():
            return dconst(p.const())
        if self.fd is not None and self.fd.knows(p):
            return self.fd.bounds(p, self.mask)
        integer = is_int_poly(p)
        k, lead, c = p.normalize(integer)
        d = self.kbounds(k, integer, depth)
        r = d.scale(lead, c)
        return r

    def kbounds(self, k, integer, depth):
        if self.fd is not None and self.fd.knows(k):
            return self.fd.bounds(k, self.mask)
        if self._kb is None:
            self._kb = {}
        r = self._kb.get((k, integer, depth))
        if r is None:
            r = self._kb[(k, integer, depth)] = self.kbounds1(k, integer, depth)
        return r

    def kbounds1(self, k, integer, depth):
        d = self.c.get(k, TOP)
        if HEAVY[0] and heavy(k):
            return d
        a = k.atom()
        if a is not None:
            d = d.inter(self.atom_dom(a, depth))
            if depth > 0:
                for q, qd in self.c.items():
                    if q is k or len(q.d) < 2:
                        continue
                    co = q.d.get(((a, 1),))
                    if co is None:
                        continue
                    rest = q - k.scale(co)
                    if any(a is x for x in rest.atoms()):
                        continue
                    rb = self.bounds(rest, depth - 2)
                    nd = dadd(qd, rb.scale(-1)).scale(Fraction(1) / Fraction(co))
                    d = d.inter(intround(nd) if integer else nd)
        else:
            s = dconst(0)
            for m, c in k.d.items():
                if m == ():
                    s = s.scale(1, c)
                    continue
                b = None
                for at, e in m:
                    x = self.kbounds(P(at), at.sort == "int", depth - 1)
                    if e < 0:
                        x = dinv(x)
                        e = -e
                    if e == 2 and len(m) == 1:
                        x = dsq(x)
                        e = 1
                    for _ in range(e):
                        b = x if b is None else dmul(b, x)
                s = dadd(s, b.scale(c))
            d = d.inter(intround(s) if integer else s)
            if depth > 0 and len(k.d) > 1:
                ka = k.atoms()
                for at in ka:
                    if at.op in LINEAR_BOUNDS:
                        co = k.d.get(((at, 1),))
                        lh = LINEAR_BOUNDS[at.op](self, at, depth) if co is not None else None
                        if lh is not None:
                            rest = k - P(at).scale(co)
                            lo, hi = lh if co > 0 else lh[::-1]
                            if lo is not None:
                                b = self.bounds(rest + lo.scale(co), depth - 1)
                                if not b.empty():
                                    d = d.inter(Dom(((b.lo(), PINF),)))
                            if hi is not None:
                                b = self.bounds(rest + hi.scale(co), depth - 1)
                                if not b.empty():
                                    d = d.inter(Dom(((NINF, b.hi()),)))
                for q, qd in self.c.items():
                    if q == k or len(q.d) < 2 or len(q.d) > len(k.d) + 1:
                        continue
                    # k = f*q + rest, with the rest simpler
                    m0 = next(iter(q.d))
                    for m0 in q.d:
                        if m0 in k.d:
                            f = Fraction(k.d[m0]) / Fraction(q.d[m0])
                            rest = k - q.scale(f)
                            if len(rest.d) < len(k.d) or len(rest.atoms()) < len(ka):
                                nd = dadd(qd.scale(_num(f)), self.bounds(rest, depth - 1))
                                d = d.inter(intround(nd) if integer else nd)
                            break
        if integer and len(d.iv) and any(isinstance(x[0][0], Fraction) or x[0][1] for x in d.iv):
            d = intround(d)
        return d

    def atom_dom(self, a, depth=3):
        op = a.op
        if op in ATOM_RANGE:
            return ATOM_RANGE[op]
        if op == "var":
            lo, hi = a.args[1], a.args[2]
            if lo is None and hi is None:
                return TOP
            if isinstance(lo, tuple):
                return dset(lo)
            return drange(lo, hi)
        if op == "idiv":
            p, q = a.args
            if q.is_const() and q.const() > 0:
                b = self.bounds(p, depth - 1)
                if b.empty():
                    return EMPTY
                c = q.const()
                return drange(_tdiv(b.lo()[0], c), _tdiv(b.hi()[0], c))
            return TOP
        if op == "irem":
            p, q = a.args
            if q.is_const() and q.const() != 0:
                c = abs(q.const())
                b = self.bounds(p, depth - 1)
                if b.empty():
                    return EMPTY
                lo, hi = b.lo()[0], b.hi()[0]
                if lo >= 0 and hi < c:
                    return b
                vs = b.values(800)
                if vs is not None:
                    return dset(_trem(v, c) for v in vs)
                return drange(0 if lo >= 0 else -(c - 1), 0 if hi <= 0 else c - 1)
            return TOP
        if op == "tab":
            vals, idx = a.args
            b = self.bounds(idx, depth - 1)
            vs = b.values(len(vals) + 2)
            if vs is None:
                vs = range(len(vals))
            return dset(int(vals[i]) for i in vs if 0 <= i < len(vals)) if a.sort == "int" else TOP
        if op in ("abs",):
            b = self.bounds(a.args[0], depth - 1)
            if b.empty():
                return EMPTY
            if b.lo()[0] >= 0:
                return b
            if b.hi()[0] <= 0:
                return b.scale(-1)
            return drange(0, max(-b.lo()[0], b.hi()[0]))
        if op in ("exp", "powpos"):
            return Dom((((0, 1), PINF),))
        if op in ("sqrt",):
            return drange(0, None)
        if op in ("max", "min"):
            bs = [self.bounds(x, depth - 1) for x in a.args]
            if any(b.empty() for b in bs):
                return EMPTY
            f = max if op == "max" else min
            return Dom(((f(b.lo() for b in bs), f(b.hi() for b in bs)),))
        if op == "len":  # at most isize::MAX, as for every slice of a sized type that is not zero-sized
            return drange(0, 2**63 - 1)
        if op == "nonneg":
            return drange(0, None)
        if op in ("wrap",):
            return drange(a.args[1], a.args[2])
        if op == "ty":  # typed opaque: ty(term, lo, hi)
            lo, hi = a.args[1], a.args[2]
            if isinstance(lo, tuple):
                return dset(lo)
            return drange(lo, hi)
        if op == "poly":
            return self.bounds(a.args[0], depth - 1)
        f = ATOM_DOMS.get(op)
        if f is not None:
            return f(self, a, depth)
        return TOP

    def eqs(self):
        """substitution from the equalities recorded in the store: atom -> poly"""
        e = self._eqs
        if e is None:
            e = {}
            for k, d in self.c.items():
                if len(d.iv) != 1:
                    continue
                v = d.singleton()
                if v is None:
                    continue
                r = solve_eq(k, v, e)
                if r is not None:
                    e[r[0]] = r[1]
            self._eqs = e
        return e

    def unsigned(self, a):
        """|x| where the sign of x is recorded"""
        if isinstance(a, T) and a.op == "abs":
            p = P(a.args[0])
            k, lead, c0 = p.normalize(is_int_poly(p))
            d = self.c.get(k)
            if d is not None and d.iv:
                d = d.scale(lead, c0)
                if d.lo()[0] >= 0:
                    return p
                if d.hi()[0] <= 0:
                    return -p
        return None

    def canon(self, p):
        """p rewritten with the recorded equalities and signs, inside atoms too"""
        if abs_keys(p):
            p = deep_subst(p, self.unsigned)
        e = self.eqs()
        if not e:
            return p

        def f(a):
            r = e.get(a)
            if r is None and a.op in CANON:
                r = CANON[a.op](self, a)
            return r
        for _ in range(4):
            q = deep_subst(p, f)
            if q is p or q == p:
                return p
            p = q
        return p

    # -- refinement ----------------------------------------------------------------------------
    def refine(self, p, dom):
        """store with p in dom, or None when that is impossible"""
        p = P(p)
        if not p.is_const() and (self.fd is None or not self.fd.knows(p)):
            q = self.canon(p)
            if q != p:
                r = self.refine1(q, dom)
                return r if r is None else r.refine1(p, dom)
        return self.refine1(p, dom)

    def refine1(self, p, dom):
        if p.is_const():
            return self if p.const() in dom else None
        if self.fd is not None and self.fd.knows(p):
            m = self.mask & self.fd.domask(p, dom)
            if not m:
                return None
            return self if m == self.mask else Store(self.c, self.fd, m)
        integer = is_int_poly(p)
        k, lead, c = p.normalize(integer)
        f = Fraction(1) / Fraction(lead)
        kd = dom.scale(_num(f), _num(-Fraction(c) * f))
        if integer:
            kd = intround(kd)
        return self.krefine(k, kd, integer)

    def krefine(self, k, kd, integer, depth=3):
        if HEAVY[0] and heavy(k):
            old = self.c.get(k, TOP)
            new = old.inter(kd)
            if new.empty():
                return None
            s = self if new == old else self.copy()
            s.c[k] = new
            return s
        old = self.kbounds(k, integer, 3)
        new = old.inter(kd)
        if new.empty():
            return None
        if new == old and self.c.get(k) is not None:
            return self
        s = self.copy()
        prev = s.c.get(k, TOP)
        s.c[k] = prev.inter(kd) if prev is not TOP else kd
        # keep exact information when the interval is known
        s.c[k] = s.c[k].inter(old) if True else s.c[k]
        if s.c[k].singleton() is not None and depth > 0 and NEST[0] < 3:
            # a new equality: rewrite the constraints it touches (rewriting may itself give equalities: bounded)
            s._eqs = None
            e = solve_eq(k, s.c[k].singleton(), {})
            if e is not None:
                for q, qd in list(s.c.items()):
                    if q == k or (len(q.d) < 2 and not any(isinstance(y, Poly) for x in q.atoms() for y in x.args)):
                        continue
                    q2 = deep_subst(q, lambda t: e[1] if t is e[0] else None)
                    if q2 != q:
                        NEST[0] += 1
                        try:
                            s = s.refine1(q2, qd)
                        finally:
                            NEST[0] -= 1
                        if s is None:
                            return None
        if depth > 0 and NEST[0] < 3 and k.atom() is not None and k.atom().op == "var" and (s.c[k].lo()[0] >= 0 or s.c[k].hi()[0] <= 0):
            # a new sign: rewrite the absolute values it decides
            for q, qd in list(s.c.items()):
                if q != k and k in abs_keys(q) and not (q.atom() is not None and q.atom().op == "abs"):
                    q2 = deep_subst(q, s.unsigned)
                    if q2 != q:
                        NEST[0] += 1
                        try:
                            s = s.refine1(q2, qd)
                        finally:
                            NEST[0] -= 1
                        if s is None:
                            return None
        a = k.atom()
        if a is not None and depth > 0:
            s = s.backprop(a, s.c[k], depth)
            if s is None:
                return None
        if depth > 0:
            # feasibility of the relations that mention the refined atoms
            ats = k.atoms()
            for q, qd in list(s.c.items()):
                if q == k:
                    continue
                if ats & q.atoms():
                    qi = is_int_poly(q)
                    if s.kbounds(q, qi, 2).empty():
                        return None
                # atoms defined in terms of the refined ones
            for q in list(s.c):
                for at in q.atoms():
                    if at.op in ("idiv", "irem", "tab") and any(x in ats for g in at.args if isinstance(g, Poly) for x in g.atoms()):
                        if s.kbounds(P(at), True, 2).empty():
                            return None
        return s

    def backprop(self, a, d, depth):
        s = self
        if a.op == "idiv":
            p, q = a.args
            if q.is_const() and q.const() > 0:
                c = q.const()
                lo, hi = d.lo()[0], d.hi()[0]
                nlo = lo * c if lo > 0 else (lo * c - (c - 1) if lo != -inf else -inf)
                nhi = hi * c + c - 1 if hi >= 0 else (hi * c if hi != -inf else -inf)
                if lo == 0:
                    nlo = -(c - 1)
                return s.refine(p, drange(nlo, nhi))
        if a.op == "tab" and a.sort == "int":
            vals, idx = a.args
            b = s.bounds(idx)
            vs = b.values(len(vals) + 2)
            if vs is None:
                vs = range(len(vals))
            ok = [i for i in vs if 0 <= i < len(vals) and int(vals[i]) in d]
            if not ok:
                return None
            return s.refine(idx, dset(ok))
        if a.op == "irem":
            p, q = a.args
            if q.is_const():
                c = abs(q.const())
                b = s.bounds(p)
                vs = b.values(800)
                if vs is not None:
                    ok = [v for v in vs if _trem(v, c) in d]
                    if not ok:
                        return None
                    return s.refine(p, dset(ok))
        if a.op == "abs":
            if d.empty():
                return None
            dd = d.inter(drange(0, None))
            if dd.empty():
                return None
            return s.refine(a.args[0], dd.union(dd.scale(-1), a.sort == "int"))
        return s

    def assume(self, f, truth=True):
        """list of stores in which formula f has the given truth value"""
        if f is TRUE:
            return [self] if truth else []
        if f is FALSE:
            return [] if truth else [self]
        if f.op == "not":
            return self.assume(f.args[0], not truth)
        if f.op == "cmp":
            rel, q, integer = f.args
            if not truth:
                rel = {"==": "!=", "<=": ">", "<": ">="}[rel]
            s = self.refine(q, dcmp(rel, integer))
            return [s] if s is not None else []
        if (f.op == "and" and truth) or (f.op == "or" and not truth):
            cur = [self]
            for g in f.args:
                cur = [s2 for s in cur for s2 in s.assume(g, truth)]
            return cur
        if (f.op == "or" and truth) or (f.op == "and" and not truth):
            out = []
            cur = [self]
            for g in f.args:
                out += [s2 for s in cur for s2 in s.assume(g, truth)]
                cur = [s2 for s in cur for s2 in s.assume(g, not truth)]
            return out
        raise ValueError(f)

    def truth(self, f):
        """True/False/None"""
        t = self.assume(f, True)
        if not t:
            return False
        e = self.assume(f, False)
        if not e:
            return True
        return None

    def simplify(self, p):
        """substitute atoms whose value is known"""
        p = P(p)

        def sub(a):
            d = self.kbounds(P(a), a.sort == "int", 2)
            v = d.singleton()
            if v is not None:
                return const(v)
            return None

        return p.subst(sub)

    def equal(self, p, q):
        d = P(p) - P(q)
        if not d.d:
            return True
        b = self.bounds(d)
        if b.singleton() == 0:
            return True
        d2 = self.simplify(self.canon(d))
        if not d2.d or self.bounds(d2).singleton() == 0:
            return True
        d3 = expand_den(d2)
        if not d3.d:
            return True
        if any(a.op == "irem" for a in d2.atoms()):
            d5 = d2.subst(lambda a: a.args[0] - P(atom("idiv", *a.args, sort="int")) * a.args[1] if a.op == "irem" else None)
            if not d5.d or self.bounds(d5).singleton() == 0:
                return True
        if any(a.op == "idiv" for a in d2.atoms()):
            d5 = d2.subst(lambda a: (a.args[0] - P(iexpr("irem", *a.args))) / a.args[1]
                          if a.op == "idiv" and (a.args[1].is_const() or len(a.args[1].d) == 1) else None)
            d5 = self.simplify(d5)
            if not d5.d or self.bounds(d5).singleton() == 0 or not expand_den(d5).d:
                return True
        # equalities recorded in the store
        d4 = d3
        for k, kd in self.c.items():
            v = kd.singleton()
            if v is None or len(k.d) < 2:
                continue
            # solve k == v for an atom that occurs linearly
            for m, c in k.d.items():
                if len(m) == 1 and m[0][1] == 1:
                    a = m[0][0]
                    rest = (const(v) - (k - P(a).scale(c))).scale(Fraction(1) / Fraction(c))
                    if a in rest.atoms():
                        continue
                    d4 = d4.subst(lambda x: rest if x is a else None)
                    break
        d4 = expand_den(self.simplify(d4))
        if not d4.d:
            return True
        return any(f(self, d2) for f in DEEP_EQUAL)


def solve_eq(k, v, e):
    """k == v solved for one atom not in e: (atom, poly) or None"""
    a = k.atom()
    if a is not None:
        return a, const(v)
    integer = is_int_poly(k)
    cands = []
    for m, c in k.d.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0] not in e:
            if integer and c not in (1, -1):
                continue
            cands.append((m[0][0], c))
    cands.sort(key=lambda x: 0 if x[0].op == "var" else 1 if x[0].op in BINDERS else 2)
    for x, c in cands:
        rest = (const(v) - (k - P(x).scale(c))).scale(Fraction(1) / Fraction(c))
        at = all_atoms(rest)
        if x in at:
            continue
        if e:
            seen, todo = set(), [y for y in at if y in e]
            while todo and x not in seen:
                y = todo.pop()
                if y not in seen:
                    seen.add(y)
                    more = all_atoms(e[y])
                    seen |= {z for z in more if z is x}
                    todo += [z for z in more if z in e]
            if x in seen:
                continue
        return x, rest
    return None


def _tdiv(a, c):
    if abs(a) == inf:
        return a
    return int(a) // c if a >= 0 else -((-int(a)) // c)


def _trem(a, c):
    return a % c if a >= 0 else -((-a) % c)


def dinv(x):
    if x.empty():
        return x
    lo, hi = x.lo(), x.hi()
    if lo > (0, 0) or hi < (0, 0):
        def i(e):
            if abs(e[0]) == inf:
                return (0, -1 if e[0] < 0 else 1)
            if e[0] == 0:
                return (inf if e[1] > 0 else -inf, 0)
            return (_num(Fraction(1) / Fraction(e[0])), -e[1])
        return Dom(((i(hi), i(lo)),))
    return TOP


def dsq(x):
    if x.empty():
        return x
    return drange(0, None) if TOP == x else dmul(x, x).inter(drange(0, None))


def iexpr(op, p, q):
    """integer division / remainder (truncating)"""
    p, q = P(p), P(q)
    if op == "irem" and q.atom() is not None and q.atom().op == "abs":
        q = q.atom().args[0]              # the sign of the divisor does not matter
    if p.is_const() and q.is_const() and q.const() != 0:
        a, b = p.const(), q.const()
        qq = abs(a) // abs(b)
        if (a < 0) != (b < 0):
            qq = -qq
        return const(qq) if op == "idiv" else const(a - b * qq)
    if q.is_const() and q.const() == 1:
        return p if op == "idiv" else ZERO
    if q.is_const() and q.const() > 1:
        c = q.const()
        if all(isinstance(k, int) and k % c == 0 for k in p.d.values()):
            return p.scale(Fraction(1, c)) if op == "idiv" else ZERO
    return atom(op, p, q, sort="int")


def all_atoms(x, acc=None):
    """every atom that occurs in a term/poly, transitively"""
    if acc is None:
        acc = set()
    if isinstance(x, Poly):
        for a in x.atoms():
            all_atoms(a, acc)
    elif isinstance(x, T):
        if x in acc:
            return acc
        acc.add(x)
        for y in x.args:
            all_atoms(y, acc)
    elif isinstance(x, tuple):
        for y in x:
            all_atoms(y, acc)
    return acc


def _fold(op, f, n=None):
    def c(*xs):
        ps = [P(x) for x in xs]
        if all(x.is_const() for x in ps):
            return const(f(*[x.const() for x in ps]))
        return mk(op, *xs, sort="int" if all(is_int_poly(x) for x in ps) else "real")
    return c


CTOR = {"abs": _fold("abs", abs)}      # op -> normalising constructor
BINDERS = {}                           # op -> number of bound variables (filled by loops.py)


def deep_subst(x, f, memo=None):
    """rebuild x replacing atoms by polys/terms via f(T)->Poly|T|None"""
    if memo is None:
        memo = {}
    if isinstance(x, Poly):
        def g(a):
            r = deep_subst(a, f, memo)
            if r is a:
                return None
            return P(r)
        return x.subst(g)
    if isinstance(x, T):
        if x in memo:
            return memo[x]
        r = f(x)
        if r is None:
            nb = BINDERS.get(x.op)
            if nb is None:
                na = tuple(deep_subst(y, f, memo) for y in x.args)
            elif any(f(y) is not None for y in x.args[1:1 + nb]):
                na = (deep_subst(x.args[0], f, memo),) + x.args[1:]      # shadowed
            else:
                na = (deep_subst(x.args[0], f, memo),) + x.args[1:1 + nb] + tuple(deep_subst(y, f, memo) for y in x.args[1 + nb:])
            if na == x.args:
                r = x
            elif x.op == "cmp":
                r = cmp(na[0], na[1], na[2])
            elif x.op == "not":
                r = bnot(na[0])
            elif x.op == "and":
                r = band(*na)
            elif x.op == "or":
                r = bor(*na)
            elif x.op in ("idiv", "irem"):
                r = iexpr(x.op, na[0], na[1])
            elif x.op == "elem" and isinstance(na[0], T) and na[0].op == "mapvec":
                r = CTOR["pick"](*na)
            elif x.op == "elem" and isinstance(na[0], T) and na[0].op in ("setelem", "vecof"):
                r = pick(*na)
                if isinstance(r, T) and r.op == "elem":
                    r = mk(r.op, *r.args, sort=x.sort)
            elif x.op in CTOR:
                r = CTOR[x.op](*na)
            else:
                r = mk(x.op, *na, sort=x.sort)
        memo[x] = r
        return r
    if isinstance(x, tuple):
        return tuple(deep_subst(y, f, memo) for y in x)
    return x
