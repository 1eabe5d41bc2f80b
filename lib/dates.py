"""Abstract calendar dates.

A date value is the term date(s) with s its serial number (1900-01-01 = 2).  Components of a date are the
integer atoms dom(s) mon(s) yr(s) yday(s) wd(s).  A civil date maps back through som(k), the serial number
of the first day of month k = 12*year + month: civil(y,m,d) = som(12y+m) + d - 1.

The chrono models below are the trusted base: chrono implements the proleptic Gregorian calendar.  The
contracts of Date's own functions (DateContracts) are what the checks on Date establish; the analyses of
calendars, schedules, ... use them in place of the bodies."""
import functools
import datetime as _dt

import engine
import models
import terms
from engine import *
from models import std, deref, STD
from terms import *

MIN_SERIAL, MAX_SERIAL = 2, 109574
_ORD0 = _dt.date(1900, 1, 1).toordinal() - 2

for _op, _r in (("dom", (1, 31)), ("mon", (1, 12)), ("yday", (1, 366)), ("wd", (1, 7)), ("leap", (0, 1)), ("mlen", (28, 31))):
    ATOM_RANGE[_op] = drange(*_r)


engine.WRAP_DOM["date"] = drange(MIN_SERIAL, MAX_SERIAL)      # every Date is in range: D02


def to_date(s):
    return _dt.date.fromordinal(s + _ORD0)


def to_serial(d):
    return d.toordinal() - _ORD0


def civil(y, m, d):
    return to_serial(_dt.date(y, m, d))


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def mlen(y, m):
    return [31, 29 if leap(y) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]


def wd(s):
    """Sunday = 1 ... Saturday = 7"""
    return to_date(s).isoweekday() % 7 + 1


def _som(k):
    y, m = (k - 1) // 12, (k - 1) % 12 + 1
    return civil(y, m, 1) if 1 <= y <= 9998 else None


def _g(f):
    def h(s):
        if s is None or not (1 <= s + _ORD0 <= 3652059):
            return None
        return f(s)
    return h


OPS = {
    "dom": _g(lambda s: to_date(s).day),
    "mon": _g(lambda s: to_date(s).month),
    "yr": _g(lambda s: to_date(s).year),
    "yday": _g(lambda s: to_date(s).timetuple().tm_yday),
    "wd": _g(wd),
    "som": lambda k: None if k is None else _som(k),
    "leap": lambda y: None if y is None else int(leap(y)),
    "mlen": lambda y, m: None if y is None or m is None or not 1 <= m <= 12 else mlen(y, m),
}


# ---- terms ----------------------------------------------------------------------------------------

def A(op, s):
    return P(mk(op, P(s), sort="int"))


def som(k):
    """first serial of month index k; recognises k = month index of some serial"""
    k = P(k)
    # 12*yr(s) + mon(s)
    c = {m: v for m, v in k.d.items() if m != ()}
    if len(c) == 2 and k.d.get((), 0) == 0:
        ys = [(m[0][0], v) for m, v in c.items() if len(m) == 1 and m[0][1] == 1]
        if len(ys) == 2:
            (a, va), (b, vb) = ys
            if a.op == "mon":
                (a, va), (b, vb) = (b, vb), (a, va)
            if a.op == "yr" and b.op == "mon" and a.args == b.args and va == 12 and vb == 1:
                s = a.args[0]
                return s - A("dom", s) + 1
    if k.is_const():
        v = _som(int(k.const()))
        if v is not None:
            return const(v)
    return A("som", k)


def _const_date(s):
    s = P(s)
    if s.is_const() and 1 <= s.const() + _ORD0 <= 3652059:
        return to_date(int(s.const()))
    return None


def comp(op, s):
    s = P(s)
    if s.is_const():
        v = OPS[op](int(s.const()))
        if v is not None:
            return const(v)
    return A(op, s)


def date_ty(F):
    return F.adt_ty("Date")


def date_term(p):
    a = P(p).atom()
    return a.args[0] if a is not None and a.op == "serial" and isinstance(a.args[0], T) else mk("date", P(p))


terms.CTOR["date"] = date_term
terms.CTOR["serial"] = lambda t: t.args[0] if isinstance(t, T) and t.op == "date" else mk("serial", t, sort="int")


def D(F, s):
    return Sym(date_term(s), date_ty(F))


def sym_date(F, name):
    """an arbitrary valid date"""
    return D(F, var(name, "int", MIN_SERIAL, MAX_SERIAL))


def enumv(F, name, p):
    return Sym(mk("enumof", P(p)), F.adt_ty(name))


def is_dt(ty):
    return ty[0] == "adt" and ty[1].startswith("chrono::") and ty[1].endswith("DateTime")


DTY = ("adt", "chrono::datetime::DateTime", ())


def dt(s):
    return Sym(mk("dt", P(s)), DTY)


def dur(k):
    return Sym(mk("dur", P(k)), ("adt", "chrono::time_delta::TimeDelta", ()))


def as_dt(v):
    if isinstance(v, Sym) and v.t.op == "dt":
        return v.t.args[0]
    return None


def date_fields(F):
    """indices of (instant, serial) in the Date struct"""
    fs = F.adt("Date")["vs"][0][2]
    i = [k for k, f in enumerate(fs) if is_dt(f[1])]
    j = [k for k, f in enumerate(fs) if f[1] == ("int", 32)]
    if len(fs) != 2 or len(i) != 1 or len(j) != 1:
        raise mir.Missing("struct Date is no longer (chrono DateTime, i32 serial)")
    return i[0], j[0]


import mir  # noqa: E402


def serial_of(E, st, v):
    """serial number term of a date value (None when it is not a consistent date)"""
    while isinstance(v, Ref):
        v = E.read(st, v.cell, v.path)
    if isinstance(v, Sym):
        if v.t.op == "date":
            return v.t.args[0]
        if v.ty == E.date_ty:
            return P(mk("serial", v.t, sort="int"))
        return None
    if isinstance(v, Agg) and v.path == E.date_ty[1]:
        i, j = E.date_ix
        n = as_dt(v.fields[i])
        s = v.fields[j]
        if n is not None and isinstance(s, Poly) and same_serial(st.store, n, s):
            return s
    return None


def expand_som(p):
    """som(12*(y+j)+1) for a small constant j through som(12*y+1) and the lengths of the years between"""
    def f(a):
        if a.op != "som":
            return None
        k = P(a.args[0])
        c = k.d.get((), 0)
        if c % 12 != 1 or c == 1 or k.is_const() or any(v % 12 for m, v in k.d.items() if m != ()) or abs(c) > 40:
            return None
        y = (k - c).scale(Fraction(1, 12))
        j = int((c - 1) // 12)
        r = A("som", k - c + 1)
        for i in range(min(j, 0), max(j, 0)):
            n = A("leap", y + i) + 365
            r = r + n if j > 0 else r - n
        return r
    return P(p).subst(f)


def undivide(store, p):
    """multiples k*c of a quotient x div c as k*(x - x rem c), remainders known to be constant replaced"""
    def f(a):
        if a.op == "idiv" and a.args[1].is_const():
            c, k = a.args[1].const(), p.d.get(((a, 1),))
            if k is not None and k % c == 0:
                return (P(a.args[0]) - P(iexpr("irem", *a.args))).scale(Fraction(1) / Fraction(c))
        return None
    r = P(p).subst(f)
    return p if r == p else store.simplify(r)


def same_serial(store, n, s):
    if store.equal(n, s):
        return True
    d = P(n) - P(s)
    fd = store.fd
    if fd is not None and fd.knows(d):
        return fd.bounds(d, store.mask).singleton() == 0
    if any(a.op == "som" for a in all_atoms(d)):
        e = store.canon(expand_som(store.canon(d)))
        if store.equal(e, const(0)):
            return True
        e = d.subst(lambda a: P(mk("som", undivide(store, a.args[0]), sort="int")) if a.op == "som" else None)
        return e != d and store.equal(store.canon(expand_som(store.canon(e))), const(0))
    import loops
    return loops.has_deep(d) and loops.poly_equal(store, P(n), P(s), 4)


def install(E):
    """prepare an engine for date values"""
    F = E.F
    E.date_ty = date_ty(F)
    E.date_ix = date_fields(F)
    i, j = E.date_ix

    def field(v, k):
        if v.t.op == "date":
            return dt(v.t.args[0]) if k == i else v.t.args[0]
        s = P(mk("serial", v.t, sort="int"))
        return dt(s) if k == i else s
    E.struct_field[E.date_ty[1]] = field

    def agg(kind, path, variant, *fs):
        # Date { dt(p), p } is the date p
        if kind == "adt" and path == E.date_ty[1] and len(fs) == 2 and isinstance(fs[i], T) and fs[i].op == "dt" and isinstance(fs[j], Poly) and P(fs[i].args[0]) == fs[j]:
            return date_term(fs[j])
        return mk("agg", kind, path, variant, *fs)
    CTOR["agg"] = agg

    def norm(st, v):
        s = serial_of(E, st, v)
        return v if s is None else Sym(date_term(s), E.date_ty)
    E.struct_norm[E.date_ty[1]] = norm
    ATOM_RANGE["serial"] = drange(MIN_SERIAL, MAX_SERIAL)
    ATOM_RANGE["yr"] = drange(1, 9999)


# ---- chrono (trusted base) --------------------------------------------------------------------------

def _comp(op, enum=None):
    def f(c):
        n = as_dt(c.val(0))
        if n is None:
            return NotImplemented
        p = comp(op, n)
        return c.ret(p)
    return f


STD["chrono::Datelike::day"] = _comp("dom")
STD["chrono::Datelike::month"] = _comp("mon")
STD["chrono::Datelike::year"] = _comp("yr")
STD["chrono::Datelike::ordinal"] = _comp("yday")


def _comp0(op):
    def f(c):
        n = as_dt(c.val(0))
        if n is None:
            return NotImplemented
        return c.ret(comp(op, n) - 1)
    return f


STD["chrono::Datelike::day0"] = _comp0("dom")
STD["chrono::Datelike::month0"] = _comp0("mon")
STD["chrono::Datelike::ordinal0"] = _comp0("yday")


@std("chrono::TimeDelta::days", "chrono::Duration::days")
def m_days(c):
    return c.ret(dur(c.args[0]))


@std("chrono::TimeDelta::weeks")
def m_weeks(c):
    return c.ret(dur(P(c.args[0]).scale(7)))


@std("chrono::TimeDelta::num_days")
def m_num_days(c):
    v = c.val(0)
    if isinstance(v, Sym) and v.t.op == "dur":
        return c.ret(v.t.args[0])
    return NotImplemented


@std("chrono::TimeZone::with_ymd_and_hms")
def m_ymd(c):
    y, m, d, hh, mm, ss = c.args[1:7]
    if not all(isinstance(x, Poly) and x.is_const() and x.const() == 0 for x in (hh, mm, ss)):
        return NotImplemented
    return c.ret(Sym(mk("lr", y, m, d), ("adt", "chrono::offset::LocalResult", (DTY,))))


def civil_ok(y, m, d):
    """valid civil date"""
    return band(cmp(">=", m - 1, True), cmp("<=", m - 12, True), cmp(">=", d - 1, True),
                cmp("<=", d - mlen_t(y, m), True))


def mlen_t(y, m):
    """length of month m of year y, as a function of the month index 12*y + m"""
    return mlenk(P(y).scale(12) + m)


def mlenk(k):
    k = P(k)
    if k.is_const():
        v = _mlenk(int(k.const()))
        if v is not None:
            return const(v)
    if all(isinstance(c, int) and c % 12 == 0 for m, c in k.d.items() if m != ()) and isinstance(k.d.get((), 0), int):
        # a known month of the year
        m = (k.d.get((), 0) - 1) % 12 + 1
        if m != 2:
            return const(mlen(2001, m))
        return leap_t((k - m).scale(Fraction(1, 12))) + 28
    return P(mk("mlenk", k, sort="int"))


def month_rems(store, k):
    """(month of the year, month index in terms of the year) pairs month index k may have, None when nothing is known"""
    for p, dom in store.c.items():
        if len(p.d) != 1:
            continue
        (mono, c), = p.d.items()
        if c != 1 or len(mono) != 1 or mono[0][1] != 1 or mono[0][0].op != "irem" or mono[0][0].args[1] != const(12):
            continue
        x = mono[0][0].args[0]
        off = k - x
        vs = dom.values(12) if off.is_const() else None
        if vs is not None:
            year = P(iexpr("idiv", x, const(12))).scale(12)
            return [(int(r + off.const() - 1) % 12 + 1, year + r + off) for r in vs]
    return None


def mlenk_dom(store, a, depth):
    """length of a month, given what is known about its index modulo twelve"""
    rs = month_rems(store, a.args[0])
    if rs is None:
        return drange(28, 31)
    return dset({d for m, _ in rs for d in ((28, 29) if m == 2 else (mlen(2001, m),))})


def mlenk_canon(store, a):
    rs = month_rems(store, a.args[0])
    return mlenk(rs[0][1]) if rs is not None and len(rs) == 1 else None


def _mlenk(k):
    if k is None:
        return None
    y, m = (k - 1) // 12, (k - 1) % 12 + 1
    return mlen(y, m)


def month_index(s):
    return comp("yr", s).scale(12) + comp("mon", s)


def leap_t(y):
    y = P(y)
    if y.is_const():
        return const(int(leap(int(y.const()))))
    return P(mk("leap", y, sort="int"))


def civil_t(y, m, d):
    return som(P(y).scale(12) + m) + d - 1


@std("chrono::offset::LocalResult::<T>::unwrap", "chrono::LocalResult::<T>::unwrap", "chrono::offset::LocalResult::<T>::single",
     "chrono::LocalResult::<T>::single", "chrono::offset::LocalResult::<T>::earliest", "chrono::offset::LocalResult::<T>::latest")
def m_lr_unwrap(c):
    v = c.val(0)
    if not (isinstance(v, Sym) and v.t.op == "lr"):
        return NotImplemented
    y, m, d = v.t.args
    f = civil_ok(y, m, d)
    unwrap = c.ty[2].endswith("unwrap")
    out = []
    for st in c.s.store.assume(f, False):
        if unwrap:
            c.panic("unwrap", c.s.with_store(st))
        else:
            out.append((c.s.with_store(st), NONE))
    for st in c.s.store.assume(f, True):
        r = dt(civil_t(y, m, d))
        out.append((c.s.with_store(st), r if unwrap else some(r)))
    return out


@std("chrono::Utc::now")
def m_now(c):
    return c.ret(dt(var("now", "int", None, None)))


def is_sym(v, *ops):
    return isinstance(v, Sym) and v.t.op in ops


def _wrap_arith(name, f):
    old = STD.get(name)

    def g(c):
        a, b = deref(c, c.args[0]), deref(c, c.args[1])
        r = f(c, a, b)
        if r is not NotImplemented:
            return r
        return old(c) if old is not None else NotImplemented
    STD[name] = g


def _add(c, a, b):
    if is_sym(a, "dt") and is_sym(b, "dur"):
        return c.ret(dt(a.t.args[0] + b.t.args[0]))
    if is_sym(a, "dur") and is_sym(b, "dur"):
        return c.ret(dur(a.t.args[0] + b.t.args[0]))
    return NotImplemented


def _sub(c, a, b):
    if is_sym(a, "dt") and is_sym(b, "dur"):
        return c.ret(dt(a.t.args[0] - b.t.args[0]))
    if is_sym(a, "dt") and is_sym(b, "dt"):
        return c.ret(dur(a.t.args[0] - b.t.args[0]))
    return NotImplemented


def _assign(sign):
    def f(c, a, b):
        if is_sym(a, "dt") and is_sym(b, "dur"):
            s = c.s.copy()
            c.E.write(s, c.args[0].cell, c.args[0].path, dt(a.t.args[0] + b.t.args[0].scale(sign)))
            return [(s, UNIT)]
        return NotImplemented
    return f


_wrap_arith("std::ops::Add::add", _add)
_wrap_arith("std::ops::Sub::sub", _sub)
_wrap_arith("std::ops::AddAssign::add_assign", _assign(1))
_wrap_arith("std::ops::SubAssign::sub_assign", _assign(-1))


# ---- finite domains -------------------------------------------------------------------------------

_cache = {}


def date_domain(lo=MIN_SERIAL, hi=MAX_SERIAL, name="D"):
    """all dates lo..hi as values of the variable `name`"""
    k = (lo, hi, name)
    if k not in _cache:
        v = var(name, "int", MIN_SERIAL, MAX_SERIAL)
        cols = {v.atom(): list(range(lo, hi + 1))}
        ds = [to_date(s) for s in range(lo, hi + 1)]
        for op, f in (("dom", lambda d: d.day), ("mon", lambda d: d.month), ("yr", lambda d: d.year),
                      ("yday", lambda d: d.timetuple().tm_yday), ("wd", lambda d: d.isoweekday() % 7 + 1)):
            cols[A(op, v).atom()] = [f(d) for d in ds]
        _cache[k] = FinDomain(hi - lo + 1, cols, OPS)
    return _cache[k], var(name, "int", MIN_SERIAL, MAX_SERIAL)


# ---- contracts of Date ------------------------------------------------------------------------------

class DateContracts:
    """overrides for the functions of Date, by their established contracts"""

    def __init__(self, F, which=None):
        self.F = F
        self.ov = {}
        d = self.ov
        for name, f, nargs in (("new", self.new, 3), ("from_serial", self.from_serial, 1), ("weekday", self.weekday, 1), ("month", self.month, 1),
                               ("end_of_month", self.eom, 1), ("is_end_of_month", self.is_eom, 1), ("nth_weekday", self.nth, 4), ("is_leap", self.is_leap, 1),
                               ("month_length", self.month_length, 2), ("advance", self.advance, 3)):
            for fn in F.find(name, "Date"):
                if fn.body is not None and fn.body.argc == nargs:
                    d[fn.key] = f
        pty = F.adt_ty("Period")
        for op in ("add", "sub", "add_assign", "sub_assign"):
            for fn in F.find(op, "Date", "*") + F.find(op, "&Date", "*"):
                t = fn.body.locals[2]
                while t[0] == "ref":
                    t = t[1]
                if t == pty:
                    d[fn.key] = self.move(1 if op.startswith("add") else -1, op.endswith("_assign"))

    def move(self, sign, assign):
        """date +- period (D04)"""
        def f(E, st, args, site, subst):
            p = args[1]
            while isinstance(p, Ref):
                p = E.read(st, p.cell, p.path)
            if not isinstance(p, Agg):
                p = E.expand(p)
            pf = [x[0] for x in self.F.adt("Period")["vs"][0][2]]
            n, u = p.fields[pf.index("length")], p.fields[pf.index("unit")]
            out = []
            for s2, r in self.advance(E, st, [args[0], P(n).scale(sign), u], site, subst):
                if assign:
                    s2 = s2.copy()
                    E.write(s2, args[0].cell, args[0].path, r)
                    r = UNIT
                out.append((s2, r))
            return out
        return f

    def _ser(self, E, st, v):
        s = serial_of(E, st, v)
        if s is None:
            raise Imprecise("date value %r" % (v,))
        return s

    def checked(self, E, st, s, site):
        out = []
        for x in st.store.assume(bor(cmp("<", s - MIN_SERIAL, True), cmp(">", s - MAX_SERIAL, True)), True):
            E.panics.append(Panic("date-range", site, st.with_store(x)))
        for x in st.store.assume(band(cmp(">=", s - MIN_SERIAL, True), cmp("<=", s - MAX_SERIAL, True)), True):
            out.append((st.with_store(x), D(self.F, s)))
        return out

    def from_serial(self, E, st, args, site, subst):
        return self.checked(E, st, args[0], site)

    def new(self, E, st, args, site, subst):
        d, m, y = args
        m = E.discr_of(m)
        f = band(civil_ok(y, m, d), cmp(">=", y - 1900, True), cmp("<=", y - 2199, True))
        for x in st.store.assume(f, False):
            E.panics.append(Panic("date-range", site, st.with_store(x)))
        return [(st.with_store(x), D(self.F, civil_t(y, m, d))) for x in st.store.assume(f, True)]

    def weekday(self, E, st, args, site, subst):
        return [(st, enumv(self.F, "Weekday", comp("wd", self._ser(E, st, args[0]))))]

    def month(self, E, st, args, site, subst):
        return [(st, enumv(self.F, "Month", comp("mon", self._ser(E, st, args[0]))))]

    def eom(self, E, st, args, site, subst):
        s = self._ser(E, st, args[0])
        return [(st, D(self.F, eom_t(s)))]

    def is_eom(self, E, st, args, site, subst):
        s = self._ser(E, st, args[0])
        return [(st, cmp("==", s - eom_t(s), True))]

    def nth(self, E, st, args, site, subst):
        n, w, m, y = args
        w, m = E.discr_of(w), E.discr_of(m)
        f = band(cmp(">=", n - 1, True), cmp("<=", n - 5, True), cmp(">=", y - 1900, True), cmp("<=", y - 2199, True))
        for x in st.store.assume(f, False):
            E.panics.append(Panic("nth-range", site, st.with_store(x)))
        # 5th weekday may not exist (documented precondition of the callers)
        return [(st.with_store(x), D(self.F, P(mk("nthwd", n, w, m, y, sort="int")))) for x in st.store.assume(f, True)]

    def is_leap(self, E, st, args, site, subst):
        y = args[0]
        f = band(cmp(">=", y - 1900, True), cmp("<=", y - 2199, True))
        for x in st.store.assume(f, False):
            E.panics.append(Panic("year-range", site, st.with_store(x)))
        return [(st.with_store(x), cmp("==", leap_t(y) - 1, True)) for x in st.store.assume(f, True)]

    def month_length(self, E, st, args, site, subst):
        m = E.discr_of(args[0])
        b = args[1]
        if isinstance(b, T) and b.op == "cmp" and b.args[0] == "==":
            # month_length(m, is_leap(y))
            q = P(b.args[1])
            ats = [a for a in q.atoms() if a.op == "leap"]
            if len(ats) == 1 and len(q.atoms()) == 1 and b is cmp("==", P(ats[0]) - 1, True):
                return [(st, mlen_t(ats[0].args[0], m))]
        return [(st.with_store(x), P(mk("mlen2", m, const(int(tv)), sort="int"))) for tv in (True, False) for x in st.store.assume(b, tv)]

    def advance(self, E, st, args, site, subst):
        s = self._ser(E, st, args[0])
        n, u = args[1], E.discr_of(args[2])
        unit = E.F.adt("TimeUnit")["vs"]
        out = []
        for name, dv, _ in unit:
            st2 = st.store.refine(u, dconst(dv))
            if st2 is None:
                continue
            x = st.with_store(st2)
            if name == "Days":
                out += self.checked(E, x, s + n, site)
            elif name == "Weeks":
                out += self.checked(E, x, s + P(n).scale(7), site)
            elif name in ("Months", "Years"):
                k = P(n).scale(12) if name == "Years" else P(n)
                out += self.checked(E, x, addm(s, k), site)
            else:
                E.panics.append(Panic("time-unit", site, x))
        return out


def eom_t(s):
    """last day of the month of s"""
    s = P(s)
    return s - comp("dom", s) + mlenk(month_index(s))


def addm(s, k):
    """s moved by k months, day of month clamped"""
    k, s = P(k), P(s)
    if not k.d:
        return s
    if s.is_const() and k.is_const():
        v = add_months(int(s.const()), int(k.const()))
        if v is not None:
            return const(v)
    if k.is_const():
        pass
    return P(mk("addm", s, k, sort="int"))


def add_months(s, k):
    d = to_date(s)
    i = d.year * 12 + d.month - 1 + k
    y, m = i // 12, i % 12 + 1
    if not 1 <= y <= 9998:
        return None
    return civil(y, m, min(d.day, mlen(y, m)))


@functools.lru_cache(None)
def _nth(n, w, m, y):
    if None in (n, w, m, y) or not 1 <= m <= 12:
        return None
    first = civil(y, m, 1)
    s = first + (w - wd(first)) % 7 + 7 * (n - 1)
    return s


OPS["eom"] = _g(lambda s: s - to_date(s).day + mlen(to_date(s).year, to_date(s).month))
OPS["addm"] = lambda s, k: None if s is None or k is None else _g(lambda x: add_months(x, k))(s)
OPS["nthwd"] = _nth
OPS["mlen2"] = lambda m, l: None if not 1 <= m <= 12 else mlen(2000 if l else 2001, m)
for _op in ("eom", "addm", "nthwd", "som"):
    pass
CTOR["mlenk"] = mlenk
CTOR["addm"] = addm
CTOR["som"] = som
CTOR["leap"] = leap_t
OPS["mlenk"] = _mlenk
ATOM_DOMS["mlenk"] = mlenk_dom
terms.CANON["mlenk"] = mlenk_canon
ATOM_RANGE["mlen2"] = drange(28, 31)


def _som_dom(store, a, depth):
    d = store.bounds(a.args[0], depth - 1)
    if d.empty():
        return d
    lo, hi = d.lo()[0], d.hi()[0]
    return drange(_som(int(lo)) if abs(lo) < 200000 else None, _som(int(hi)) if abs(hi) < 200000 else None)


terms.ATOM_DOMS["som"] = _som_dom
