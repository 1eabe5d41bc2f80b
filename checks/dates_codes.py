"""IMM codes"""
import bisect

from run import *
from dates import *
from strings import text, literal
from engine import Str
import dates_imm
from dates_core import ref, TRUST

LETTERS = "FGHJKMNQUVXZ"


DEFAULT_SERIAL = 2


def date_term_value(E, F, name):
    return E.sym(name, F.adt_ty("Date"))


def third_wed(m, y):
    return OPS["nthwd"](3, 4, m, y)


def imm_of(month, digit):
    """the first third Wednesday of the month on or after the date, in a year ending with the digit"""
    at = []

    def f(s):
        if not at:
            at.extend(x for x in (third_wed(month, y) for y in range(1900 + digit, 2200, 10)) if x is not None)
        i = bisect.bisect_left(at, s) if s is not None else len(at)
        return at[i] if i < len(at) else None
    return f


for _m in range(1, 13):
    for _d in range(10):
        OPS["imm_%d_%d" % (_m, _d)] = imm_of(_m, _d)


def among(x, s):
    return bor(*[cmp("==", x - ord(k), True) for k in s])


def in_range(st, x, lo, hi):
    st, = [st.with_store(y) for y in st.store.assume(band(cmp(">=", x - lo, True), cmp("<=", x - hi, True)), True)]
    return st


@check("D12")
def d12(ck):
    """IMM codes"""
    F = ck.F
    ck.explanation = ("MIR abstract interpretation of the IMM code functions: validity for every string, by shape (two ASCII characters with symbolic codes, one "
                      "two-byte character, any other length); date -> code and code -> date with the exact powerset domain over all supported dates")
    ck.assumptions = TRUST + ["Date::nth_weekday: contract checked by D05; IMM::next_date, is_imm_date: checked by D10"]
    fd, v = date_domain()
    is_code, is_date = F.one("is_imm_code", "IMM"), F.one("is_imm_date", "IMM")

    def imm(E, st):
        return ref(E, st, E.sym("imm", F.adt_ty("IMM")))
    # validity
    a, b = P(mk("var", "c0", 0, 255, sort="int")), P(mk("var", "c1", 0, 255, sort="int"))
    for main in (False, True):
        lt = LETTERS + LETTERS.lower() if not main else "HMZUhmzu"
        E = ck.engine()
        st = State(store=Store())
        st = in_range(in_range(st, a, 0, 127), b, 0, 127)
        ck.verify("is_imm_code:%s:ascii" % main, is_code, [imm(E, st), ref(E, st, text([a, b])), TRUE if main else FALSE],
                  lambda q: band(cmp(">=", b - 48, True), cmp("<=", b - 57, True), among(a, lt)), E, st)
        E = ck.engine()
        st = State(store=Store())
        st = in_range(in_range(st, a, 0xC2, 0xDF), b, 0x80, 0xBF)
        ck.verify("is_imm_code:%s:two-byte" % main, is_code, [imm(E, st), ref(E, st, text([a, b])), TRUE if main else FALSE], lambda q: FALSE, E, st)
        for n in (0, 1):
            E = ck.engine()
            st = in_range(State(store=Store()), a, 0, 127)
            ck.verify("is_imm_code:%s:length %d" % (main, n), is_code, [imm(E, st), ref(E, st, literal([a][:n])), TRUE if main else FALSE], lambda q: FALSE, E, st)
        E = ck.engine()
        st = State(store=Store())
        code = E.sym("code", ("str",))
        st, = [st.with_store(x) for x in st.store.assume(cmp(">", P(mk("len", E.term(st, code), sort="int")) - 2, True), True)]
        ck.verify("is_imm_code:%s:longer" % main, is_code, [imm(E, st), ref(E, st, code), TRUE if main else FALSE], lambda q: FALSE, E, st)
        ck.count("shapes", 5)

    # code of a date
    E = ck.engine()
    st = State(store=Store(fd=fd))

    def of_date(q):
        if not q(band(cmp("==", comp("wd", v) - 4, True), cmp(">=", comp("dom", v) - 15, True), cmp("<=", comp("dom", v) - 21, True))):
            return PANIC
        for m in range(1, 13):
            if q.eq(comp("mon", v), m):
                return text([const(ord(LETTERS[m - 1])), iexpr("irem", comp("yr", v), const(10)) + 48])
    ck.verify("code", F.one("code", "IMM"), [imm(E, st), ref(E, st, D(F, v))], of_date, E, st)

    # date of a code; a reference date of the last ten years may leave no date in range
    fn = F.one("date", "IMM")
    last = civil(2189, 12, 31)
    base = {x: fd.cols[x] for x in [v.atom()] + [comp(o, v).atom() for o in ("dom", "mon", "yr", "yday", "wd")]}
    for j, k in enumerate("".join(x + x.lower() for x in LETTERS)):
        if j % 6 == 0:                      # columns of three months at a time
            fd = FinDomain(fd.n, base, OPS)
        for given in (True, False):
            for d in range(10):
                E = ck.engine()
                st = State(store=Store(fd=fd).refine(v, drange(MIN_SERIAL + 1, last)))
                im = Agg("adt", F.adt_ty("IMM")[1], 0, (Agg("adt", F.adt_ty("PricingContext")[1], 0, (date_term_value(E, F, "eval") if given else D(F, v),)),))
                ck.verify("date:%s%d:%s" % (k, d, "reference" if given else "evaluation date"), fn,
                          [ref(E, st, im), ref(E, st, Str(k + str(d))), ref(E, st, D(F, v) if given else D(F, const(DEFAULT_SERIAL)))],
                          lambda q: D(F, P(mk("imm_%d_%d" % (j // 2 + 1, d), v, sort="int"))), E, st)
                ck.count("codes")

    # the next code: of the next date
    next_date, code, date = F.one("next_date", "IMM"), F.one("code", "IMM"), F.one("date", "IMM")
    after = F.one("next_date_from_code", "IMM")
    S = ("adt", "alloc::string::String", ())
    dt = F.adt_ty("Date")
    for main in (False, True):
        mn = TRUE if main else FALSE
        E = ck.engine(opaque={next_date.key, code.key, date.key})
        st = State(store=Store())
        im, d, cd = imm(E, st), ref(E, st, E.sym("date", dt)), ref(E, st, E.sym("code", ("str",)))

        def call(q, f, args, rty):
            return E.opaque_call(q.st, f.key, args, rty)[0][1]

        def later(q, main=mn, cell=("B", "next")):
            x = call(q, date, [im, cd, d], dt)
            q.st.mem[cell] = D(F, serial_of(E, q.st, x) + 1)
            return call(q, next_date, [im, Ref(cell), main], dt)

        def coded(q, x, cell=("B", "coded")):
            q.st.mem[cell] = x
            return call(q, code, [im, Ref(cell)], S)
        def in_range_(f):
            # no day follows the last supported one, which is no IMM date
            return lambda q: ANY if q.eq(serial_of(E, q.st, call(q, date, [im, cd, d], dt)), MAX_SERIAL) else f(q)
        ck.verify("next_code:%s" % main, F.one("next_code", "IMM"), [im, d, mn], lambda q: coded(q, call(q, next_date, [im, d, mn], dt)), E, st)
        ck.verify("next_date_from_code:%s" % main, after, [im, cd, mn, d], in_range_(later), E, st)
        ck.verify("next_code_from_code:%s" % main, F.one("next_code_from_code", "IMM"), [im, cd, mn, d], in_range_(lambda q: coded(q, later(q))), E, st)
        ck.count("functions", 3)
