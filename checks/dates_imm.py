"""IMM dates; Easter"""
import datetime as _d

from run import *
from dates import *
from dates_core import ref, TRUST


def imm_after(main):
    def f(s):
        if s is None:
            return None
        k = _mi(s)
        while True:
            if not main or k % 12 in (3, 6, 9, 0):
                d = OPS["nthwd"](3, 4, (k - 1) % 12 + 1, (k - 1) // 12)
                if d > s:
                    return d
            k += 1
    return f


def _mi(s):
    d = to_date(s)
    return d.year * 12 + d.month


OPS["imm_next0"] = imm_after(False)
OPS["imm_next1"] = imm_after(True)


@check("D10")
def d10(ck):
    """IMM dates"""
    F = ck.F
    ck.explanation = ("MIR abstract interpretation of the IMM date functions with the exact powerset domain over all supported "
                      "dates; oracle: third Wednesday of the month (of March, June, September, December in the main cycle)")
    ck.assumptions = TRUST + ["Date::new, weekday, nth_weekday: contracts checked by D01, D02, D05"]
    fd, v = date_domain()

    def imm(E, st):
        return ref(E, st, E.sym("imm", F.adt_ty("IMM")))

    def is_imm(q, main):
        w = band(cmp("==", comp("wd", v) - 4, True), cmp(">=", comp("dom", v) - 15, True), cmp("<=", comp("dom", v) - 21, True))
        if main:
            w = band(w, bor(*[cmp("==", comp("mon", v) - m, True) for m in (3, 6, 9, 12)]))
        return w
    for main in (False, True):
        E = ck.engine()
        st = State(store=Store(fd=fd))
        ck.verify("is_imm_date:%s" % main, F.one("is_imm_date", "IMM"), [imm(E, st), ref(E, st, D(F, v)), TRUE if main else FALSE],
                  lambda q: is_imm(q, main), E, st)
        E = ck.engine()
        st = State(store=Store(fd=fd).refine(v, drange(MIN_SERIAL + 1, civil(2199, 12, 1))))
        ck.verify("next_date:%s" % main, F.one("next_date", "IMM"), [imm(E, st), ref(E, st, D(F, v)), TRUE if main else FALSE],
                  lambda q: D(F, P(mk("imm_next%d" % main, v, sort="int"))), E, st)
        ck.count("functions", 2)
    ck.count("dates", fd.n)
