"""Models of the string functions on strings of known length: a string is a list of bytes, each an integer
term (concrete for literals).  A string that is not of that shape falls back to the opaque models."""
from models import *
import models
from engine import Str, Sym, Agg, Ref, Imprecise
from terms import *


def text(v):
    return Agg("str", None, 0, tuple(v))


def codes(v):
    """bytes of a string value, or None"""
    if isinstance(v, Str):
        return [const(b) for b in v.s.encode()]
    if isinstance(v, Agg) and v.kind == "str":
        return list(v.fields)
    return None


def literal(cs):
    """a Str when every byte is known"""
    if all(x.is_const() for x in cs):
        try:
            return Str(bytes(int(x.const()) for x in cs).decode())
        except UnicodeDecodeError:
            pass
    return text(cs)


def ascii_(s, x):
    b = s.store.bounds(x)
    return b.hi()[0] <= 127


def chars(c, v):
    """characters of the string as code points"""
    cs = codes(v)
    if cs is None:
        return None
    out, i = [], 0
    while i < len(cs):
        b = c.s.store.bounds(cs[i])
        if ascii_(c.s, cs[i]):
            out.append(cs[i])
            i += 1
        elif b.lo()[0] >= 0xC0 and b.hi()[0] <= 0xDF and i + 1 < len(cs):
            out.append((cs[i] - 0xC0) * 64 + (cs[i + 1] - 0x80))
            i += 2
        else:
            raise Imprecise("characters of a string")
    return out


def boundary(c, cs, i):
    if i == 0 or i == len(cs):
        return True
    b = c.s.store.bounds(cs[i])
    if b.hi()[0] <= 127 or b.lo()[0] >= 0xC0:
        return True
    if b.lo()[0] >= 128 and b.hi()[0] <= 0xBF:
        return False
    raise Imprecise("character boundary")


def stext(*names):
    """register; a NotImplemented result falls back to the model that was there"""
    def reg(f):
        both = dict.fromkeys(x for n in names for x in (n, n.replace("core::char", "std::char"), n.replace("core::num", "std::num")))
        for n in both:
            old = STD.get(n)

            def g(c, old=old):
                r = f(c)
                if r is not NotImplemented:
                    return r
                return old(c) if old is not None else NotImplemented
            STD[n] = g
        return f
    return reg


def nm(c):
    return c.ty[2].split("::")[-1]


def split(s, f):
    """-> (states where f holds, states where it does not)"""
    return [s.with_store(x) for x in s.store.assume(f, True)], [s.with_store(x) for x in s.store.assume(f, False)]


def all_eq(a, b):
    return band(*[cmp("==", x - y, True) for x, y in zip(a, b)]) if a else TRUE


def within(x, lo, hi):
    return band(cmp(">=", x - lo, True), cmp("<=", x - hi, True))


def str_eq(c, s, a, b):
    x, y = codes(a), codes(b)
    if x is None or y is None:
        return None
    return FALSE if len(x) != len(y) else all_eq(x, y)


models.string_eq = str_eq


def str_slice(c, s, v, lo, hi):
    """value of a range of the string; None (after reporting the panic) off a boundary"""
    cs = codes(v)
    a, b = s.store.bounds(lo).singleton(), s.store.bounds(hi).singleton()
    if a is None or b is None:
        raise Imprecise("string slice")
    a, b = int(a), int(b)
    if not boundary(c, cs, a) or not boundary(c, cs, b):
        return None
    return literal(cs[a:b])


models.str_slice = str_slice


@stext("core::str::<impl str>::len", "std::string::String::len", "core::str::<impl str>::is_empty", "std::string::String::is_empty")
def s_len(c):
    cs = codes(c.val(0))
    if cs is None:
        return NotImplemented
    return c.ret(const(len(cs)) if nm(c) == "len" else (TRUE if not cs else FALSE))


@stext("core::str::<impl str>::is_ascii")
def s_is_ascii(c):
    v = c.val(0)
    cs = codes(v)
    if cs is None:
        return c.ret(batom("isascii", c.E.term(c.s, v)))
    return c.ret(band(TRUE, *[cmp("<=", x - 127, True) for x in cs]))


@stext("core::str::<impl str>::as_bytes", "core::str::<impl str>::bytes", "std::string::String::as_bytes", "std::string::String::into_bytes")
def s_bytes(c):
    v = c.val(0)
    cs = codes(v)
    if cs is None:
        if nm(c) != "as_bytes":
            return NotImplemented
        return c.ret(Ref(("S", c.E.term(c.s, v), ("slice", ("uint", 8)))))
    seqv = Agg("vec", None, 0, tuple(cs))
    if nm(c) == "bytes":
        return c.ret(it(seq("own", seqv)))
    if nm(c) == "into_bytes":
        return c.ret(seqv)
    c.E.fid += 1
    s = c.s.copy()
    cell = ("B", c.E.fid)
    s.mem[cell] = Agg("array", None, 0, tuple(cs))
    return [(s, Ref(cell))]


@stext("core::str::<impl str>::chars", "core::str::<impl str>::char_indices")
def s_chars(c):
    cs = chars(c, c.val(0))
    if cs is None:
        return NotImplemented
    q = seq("own", Agg("vec", None, 0, tuple(cs)))
    return c.ret(it(q if nm(c) == "chars" else seq("enumerate", q)))


def pattern(c, v):
    """bytes of a pattern: a string or an ASCII character"""
    while isinstance(v, Ref):
        v = c.E.read(c.s, v.cell, v.path)
    if isinstance(v, Poly):
        if not ascii_(c.s, v):
            raise Imprecise("pattern")
        return [v]
    return codes(v)


@stext("core::str::<impl str>::find", "core::str::<impl str>::contains", "core::str::<impl str>::rfind")
def s_find(c):
    h, p = codes(c.val(0)), pattern(c, c.args[1])
    if h is None or p is None:
        return NotImplemented
    at = list(range(len(h) - len(p) + 1))
    eqs = [all_eq(h[i:i + len(p)], p) for i in at]
    if nm(c) == "contains":
        return c.ret(bor(FALSE, *eqs))
    if nm(c) == "rfind":
        at.reverse()
    out, cur = [], [c.s]
    for i in at:
        nxt = []
        for s in cur:
            yes, no = split(s, eqs[i])
            out += [(x, some(const(i))) for x in yes]
            nxt += no
        cur = nxt
    return out + [(s, NONE) for s in cur]


@stext("core::str::<impl str>::split_at")
def s_split_at(c):
    v = c.val(0)
    cs = codes(v)
    if cs is None:
        return NotImplemented
    for st in c.s.store.assume(cmp(">", c.args[1] - len(cs), True), True):
        c.panic("split", c.s.with_store(st))
    out = []
    for st in c.s.store.assume(cmp("<=", c.args[1] - len(cs), True), True):
        s = c.s.with_store(st)
        a, b = str_slice(c, s, v, ZERO, c.args[1]), str_slice(c, s, v, c.args[1], const(len(cs)))
        if a is None or b is None:
            c.panic("charboundary", s)
        else:
            out.append((s, tup(a, b)))
    return out


@stext("core::str::<impl str>::starts_with", "core::str::<impl str>::ends_with", "core::str::<impl str>::strip_prefix", "core::str::<impl str>::strip_suffix")
def s_starts(c):
    h, p = codes(c.val(0)), pattern(c, c.args[1])
    if h is None or p is None:
        return NotImplemented
    n, front = nm(c), not nm(c).endswith(("ends_with", "suffix"))
    f = FALSE if len(p) > len(h) else all_eq(h[:len(p)] if front else h[len(h) - len(p):], p)
    if n in ("starts_with", "ends_with"):
        return c.ret(f)
    rest = h[len(p):] if front else h[:len(h) - len(p)]
    yes, no = split(c.s, f)
    return [(s, some(literal(rest))) for s in yes] + [(s, NONE) for s in no]


def shifted(s, x, lo, hi, d):
    """-> [(state, code with letters lo..hi moved by d)]"""
    yes, no = split(s, within(x, lo, hi))
    return [(y, x + d) for y in yes] + [(n, x) for n in no]


def case_map(c, s, cs, up):
    cur = [(s, [])]
    for x in cs:
        if not ascii_(s, x):
            raise Imprecise("case of a character")
        cur = [(s3, acc + [y]) for s2, acc in cur for s3, y in (shifted(s2, x, 97, 122, -32) if up else shifted(s2, x, 65, 90, 32))]
    return cur


@stext(*["%s::%s" % (o, n) for o in ("std::str::<impl str>", "core::str::<impl str>", "alloc::str::<impl str>") for n in ("to_uppercase", "to_lowercase", "to_ascii_uppercase", "to_ascii_lowercase")])
def s_case(c):
    cs = codes(c.val(0))
    if cs is None:
        return NotImplemented
    return [(s, literal(v)) for s, v in case_map(c, c.s, cs, "upper" in nm(c))]


@stext("core::str::<impl str>::eq_ignore_ascii_case")
def s_eqcase(c):
    a, b = codes(c.val(0)), codes(c.val(1))
    if a is None or b is None:
        return NotImplemented
    if len(a) != len(b):
        return c.ret(FALSE)
    return [(s2, all_eq(x, y)) for s, x in case_map(c, c.s, a, True) for s2, y in case_map(c, s, b, True)]


@stext(*["core::char::methods::<impl char>::" + n for n in ("to_ascii_uppercase", "to_ascii_lowercase")] + ["core::num::<impl u8>::" + n for n in ("to_ascii_uppercase", "to_ascii_lowercase")])
def s_charcase(c):
    x = c.val(0)
    if not isinstance(x, Poly):
        return NotImplemented
    return shifted(c.s, x, 97, 122, -32) if "upper" in nm(c) else shifted(c.s, x, 65, 90, 32)


CLASSES = {"is_ascii_digit": [(48, 57)], "is_ascii_uppercase": [(65, 90)], "is_ascii_lowercase": [(97, 122)], "is_ascii_alphabetic": [(65, 90), (97, 122)],
           "is_ascii_alphanumeric": [(48, 57), (65, 90), (97, 122)], "is_ascii": [(0, 127)]}


@stext(*["%s::%s" % (o, n) for o in ("core::char::methods::<impl char>", "core::num::<impl u8>") for n in CLASSES])
def s_class(c):
    x = c.val(0)
    if not isinstance(x, Poly):
        return NotImplemented
    return c.ret(bor(FALSE, *[within(x, a, b) for a, b in CLASSES[nm(c)]]))


@stext("core::char::methods::<impl char>::is_digit", "core::char::methods::<impl char>::to_digit")
def s_digit(c):
    x, r = c.val(0), c.args[1]
    if not (isinstance(x, Poly) and r == const(10)):
        return NotImplemented
    f = within(x, 48, 57)
    if nm(c) == "is_digit":
        return c.ret(f)
    yes, no = split(c.s, f)
    return [(s, some(x - 48)) for s in yes] + [(s, NONE) for s in no]


@stext("core::char::methods::<impl char>::from_digit", "std::char::from_digit", "core::char::from_digit")
def s_from_digit(c):
    x, r = c.args
    if r != const(10):
        return NotImplemented
    yes, no = split(c.s, within(x, 0, 9))
    return [(s, some(x + 48)) for s in yes] + [(s, NONE) for s in no]


@stext("core::str::<impl str>::parse", "std::str::FromStr::from_str")
def s_parse(c):
    cs = codes(c.val(0))
    ty = c.rty[2][0] if c.rty[0] == "adt" and c.rty[2] else ("other",)
    if cs is None or ty[0] not in ("int", "uint"):
        return NotImplemented
    bits = ty[1] if len(ty) > 1 and isinstance(ty[1], int) else 64
    if len(cs) > {8: 2, 16: 4, 32: 9}.get(bits, 18):
        raise Imprecise("number of many digits")
    E, R = c.E, c.rty[1]

    def number(xs):
        p = ZERO
        for x in xs:
            p = p * 10 + (x - 48)
        return p
    err = Agg("adt", R, 1, (Sym(mk("parse_error"), c.rty[2][1]),))
    out, cur = [], [c.s]
    forms = [(TRUE, cs, 1)]
    if len(cs) > 1:
        forms += [(cmp("==", cs[0] - 43, True), cs[1:], 1)] + ([(cmp("==", cs[0] - 45, True), cs[1:], -1)] if ty[0] == "int" else [])
    for first, ds, sign in forms:
        f = band(first, *[within(x, 48, 57) for x in ds]) if ds else FALSE
        nxt = []
        for s in cur:
            yes, no = split(s, f)
            out += [(y, Agg("adt", R, 0, (number(ds) * sign,))) for y in yes]
            nxt += no
        cur = nxt
    return out + [(s, err) for s in cur]


# ---- formatting ---------------------------------------------------------------------------------------

def shown(c, v, ty=None):
    """bytes that Display writes for the value, or None"""
    while isinstance(v, Ref):
        v = c.E.read(c.s, v.cell, v.path)
    while ty is not None and ty[0] == "ref":
        ty = ty[1]
    if isinstance(v, Poly):
        if ty is not None and ty[0] == "char":
            return [v] if ascii_(c.s, v) else None
        if ty is None or ty[0] not in ("int", "uint"):
            return None
        if v.is_const():
            return [const(b) for b in str(int(v.const())).encode()]
        b = c.s.store.bounds(v)
        if 0 <= b.lo()[0] and b.hi()[0] <= 9:
            return [v + 48]
        return None
    return codes(v)


@stext("core::fmt::rt::Argument::<'_>::new_display")
def s_arg(c):
    ty = c.ty[3][0] if c.ty[3] else None
    cs = shown(c, c.args[0], ty)
    return NotImplemented if cs is None else c.ret(text(cs))


@stext("std::fmt::Arguments::<'a>::new")
def s_arguments(c):
    E = c.E
    try:
        t, a = c.val(0), c.val(1)
    except Imprecise:
        return NotImplemented
    if not (isinstance(t, Agg) and t.kind == "array" and isinstance(a, Agg) and a.kind == "array" and all(isinstance(x, Poly) and x.is_const() for x in t.fields)):
        return NotImplemented
    t, out, i, k = [int(x.const()) for x in t.fields], [], 0, 0
    while i < len(t):
        b = t[i]
        i += 1
        if b == 0:
            return c.ret(text(out))
        if b < 0x80:
            out += [const(x) for x in t[i:i + b]]
            i += b
        elif b == 0xC0 and k < len(a.fields):
            cs = codes(a.fields[k])
            k += 1
            if cs is None:
                return NotImplemented
            out += cs
        else:
            return NotImplemented
    return NotImplemented


@stext("std::fmt::Arguments::<'a>::from_str", "std::fmt::Arguments::<'a>::from_str_nonconst", "std::fmt::format")
def s_format(c):
    cs = codes(c.val(0))
    return NotImplemented if cs is None else c.ret(literal(cs))


@stext("std::string::ToString::to_string", "std::convert::From::from", "std::convert::Into::into", "std::borrow::ToOwned::to_owned", "std::str::<impl str>::to_owned", "std::string::String::into_boxed_str")
def s_to_string(c):
    v = c.val(0)
    if isinstance(v, (Str, Agg)) and codes(v) is not None:
        return c.ret(v)
    n = nm(c)
    if isinstance(v, Poly) and c.rty[0] == "adt" and c.rty[1].endswith("string::String"):
        ty = c.ty[3][0] if n in ("to_string", "into") else c.ty[3][1]
        cs = shown(c, v, ty)
        if cs is not None:
            return c.ret(literal(cs))
    return NotImplemented


@stext("std::string::String::new", "std::string::String::with_capacity")
def s_new(c):
    return c.ret(Str(""))


@stext("std::string::String::push", "std::string::String::push_str")
def s_push(c):
    r = c.args[0]
    v = c.E.read(c.s, r.cell, r.path)
    cs, p = codes(v), pattern(c, c.args[1])
    if cs is None or p is None:
        return NotImplemented
    s = c.s.copy()
    c.E.write(s, r.cell, r.path, literal(cs + p))
    return [(s, UNIT)]


@stext("std::ops::Add::add")
def s_add(c):
    a = codes(c.args[0]) if not isinstance(c.args[0], (Ref, Poly)) else None
    if a is None:
        return NotImplemented
    b = codes(c.val(1))
    return NotImplemented if b is None else c.ret(literal(a + b))
