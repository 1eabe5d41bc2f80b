"""Closed forms of loops: trip count, accumulators, built-up sequences, recurrences."""
from terms import *
from loops import *
import loops
import engine as eng


def dom_formula(p, dom, integer):
    out = []
    for (a, ea), (b, eb) in dom.iv:
        c = []
        if a == b and ea == 0 and eb == 0:
            c.append(cmp("==", p - const(a), integer))
        else:
            if abs(a) != float("inf"):
                c.append(cmp(">" if ea else ">=", p - const(a), integer))
            if abs(b) != float("inf"):
                c.append(cmp("<" if eb else "<=", p - const(b), integer))
        out.append(band(*c))
    if len(dom.iv) == 2 and integer:
        (a, b), (c, d) = dom.iv
        if abs(a[0]) == float("inf") and abs(d[0]) == float("inf") and c[0] == b[0] + 2:
            return cmp("!=", p - const(b[0] + 1), True)
    return bor(*out)


def delta(store, base):
    """conjuncts by which store is stronger than base, or None"""
    if store.fd is not base.fd or store.mask != base.mask:
        return None
    out = []
    for k, d in store.c.items():
        if base.c.get(k) != d:
            integer = is_int_poly(k)
            b = base.kbounds(k, integer, 3)
            # the part of the constraint that the base does not already give
            lo = [(NINF if not b.empty() and b.lo() == x[0] and i == 0 else x[0], PINF if not b.empty() and b.hi() == x[1] and i == len(d.iv) - 1 else x[1]) for i, x in enumerate(d.iv)]
            out.append((k, dom_formula(k, Dom(tuple(lo)), integer)))
    # drop the conjuncts that the others imply
    out.sort(key=lambda x: -weight(x[0]))
    i = 0
    while i < len(out) and len(out) > 1:
        rest = [base]
        for j, (k, f) in enumerate(out):
            if j != i:
                rest = [y for x in rest for y in x.assume(f, True)]
        if all(not x.assume(out[i][1], False) for x in rest):
            del out[i]
        else:
            i += 1
    return [f for _, f in out if f is not TRUE]


def weight(p):
    return len(repr(p))


def phi_names(phis):
    out = {}
    for key, x in phis.items():
        if x[0] == "phi":
            out[key] = x[1].atom()
        elif x[0] == "sym":
            out[key] = x[1].t
        elif x[0] == "bool":
            out[key] = next(iter(x[1].args[1].atoms())) if x[1].op == "cmp" else None
    return out


def occurs(x, names):
    at = all_atoms(x)
    return any(n in at for n in names)


def foreign(x, kv, allowed):
    """existential loop counters other than kv"""
    for a in all_atoms(x):
        if a.op == "var" and isinstance(a.args[0], str) and a.args[0][:2] in ("k:", "kk") and a is not kv and a not in allowed:
            return True
    return False


def atoms_of_state(st):
    acc = set()
    for k in st.store.c:
        all_atoms(k, acc)
    return acc


def value_map(v, f):
    """rebuild a value, terms mapped by f"""
    if isinstance(v, (Poly, T)):
        return f(v)
    if isinstance(v, eng.Sym):
        t = f(v.t)
        if isinstance(t, Poly):
            a = t.atom()
            t = a if a is not None else mk("polyval", t)
        return v if t is v.t else eng.Sym(t, v.ty)
    if isinstance(v, eng.Agg):
        fs = tuple(value_map(x, f) for x in v.fields)
        return v if fs == v.fields else eng.Agg(v.kind, v.path, v.variant, fs)
    if isinstance(v, eng.Ref):
        return eng.Ref(cell_map(v.cell, f), path_map(v.path, f), v.mut)
    return v


def cell_map(c, f):
    if c[0] == "S":
        return ("S", f(c[1]), c[2])
    if c[0] == "K":
        return ("K", value_map(c[1], f))
    return c


def path_map(p, f):
    if any(e[0] == "i" for e in p):
        return tuple((e[0], P(f(e[1]))) if e[0] == "i" else e for e in p)
    return p


def state_map(st, f, store):
    g = eng.State({cell_map(c, f): value_map(v, f) for c, v in st.mem.items()}, store, st.ev, st.notes)
    return g


def linear(f, kv):
    """f as a comparison c*kv + rest (rel) 0 -> (rel, c, rest) or None"""
    neg = False
    if f.op == "not":
        f = f.args[0]
        neg = True
    if f.op != "cmp":
        return None
    rel, q, integer = f.args
    if not integer:
        return None
    c = q.d.get(((kv, 1),))
    if not isinstance(c, int):
        return None
    rest = q - P(kv).scale(c)
    if kv in all_atoms(rest) or not is_int_poly(rest):
        return None
    if neg:
        rel = {"==": "!=", "<=": ">", "<": ">="}[rel]
    if rel in (">", "<"):
        # integer: x > 0 <=> x - 1 >= 0
        rest = rest - 1 if rel == ">" else rest + 1
        rel = ">=" if rel == ">" else "<="
    if c < 0 and rel in (">=", "<="):
        c, rest, rel = -c, -rest, ("<=" if rel == ">=" else ">=")
    elif c < 0:
        c, rest = -c, -rest
    return rel, c, rest


def closed(E, fr, body, header, s0, gen, backs, phis, kvar, keep):
    """(return states, exits) or None when no closed form is found"""
    kv = kvar.atom()
    if s0.store.fd is not None:
        return None
    todo = {k: x for k, x in phis.items() if x[0] != "ind"}
    names = {k: n for k, n in phi_names(phis).items() if n is not None}
    if len(names) != len(todo):
        return None
    for b in backs:
        if b.ev != s0.ev or b.notes != s0.notes:
            return None
    allowed = atoms_of_state(s0)
    paths = []
    for b in backs:
        d = delta(b.store, gen.store)
        if d is None:
            return None
        paths.append(d)
    common = [f for f in paths[0] if all(f in p for p in paths)] if paths else []
    # checks against overflow of what is counted: assumed to succeed, and verified once the counts are known
    guards = {f for p in paths for f in p if overflow_check(f, set(names.values()))}
    conds = [band(*[f for f in p if f not in common and f not in guards]) for p in paths]
    forms = {}          # key -> closed value (Poly / T) in kvar
    clean = {}          # phi atom -> closed value

    def cl(x):
        return deep_subst(x, clean.get) if clean else x

    def ground():
        """facts about an iteration that is not the last"""
        st = s0.store.refine(kvar, drange(0, None))
        for f in common:
            f = cl(f)
            if st is not None and not occurs(f, list(names.values())):
                xs = st.assume(f, True)
                st = xs[0] if len(xs) == 1 else st
        return st

    def raw(b, key):
        cell, path = key
        return E.read_path(b, b.mem[cell], path)

    pending = list(todo)
    progress = True
    while pending and progress:
        progress = False
        for key in list(pending):
            x = todo[key]
            name = names[key]
            others = [names[k] for k in pending]
            r = accumulate(E, key, x, name, others, [raw(b, key) for b in backs], backs, conds, cl, kv, kvar, ground())
            if r is not None and not foreign(r, kv, allowed):
                forms[key] = r
                clean[name] = r if not isinstance(r, Poly) else r
                pending.remove(key)
                progress = True
                break
    if pending:
        return None
    if guards:
        st = ground()
        if st is None or any(st.truth(cl(f)) is not True for f in guards):
            return None
    # the generic iteration with closed forms
    g = s0.copy()
    facts = []
    for (cell, path), x in sorted(phis.items(), key=lambda kw: (repr(kw[0][0]), len(kw[0][1]))):
        if x[0] == "ind":
            v = x[1] + x[2] * kvar
        else:
            v = forms[(cell, path)]
            if x[0] == "bool":
                v = next((f for f in conds_of(v, []) if ind(f) == v), None) or cmp("==", v - 1, True)
            if x[0] == "sym":
                v = eng.Sym(v, x[1].ty if E.cell_type(fr, cell, path) is None else E.cell_type(fr, cell, path))
        g.mem[cell] = E.write_path(g, g.mem[cell], path, v)
        facts.append((path, v))

    def typed(st):
        for path, v in facts:
            st = eng.wrap_fact(st, path, v)
        return st

    base = typed(s0.store)
    np = len(E.panics)

    def generic(store):
        h = g.copy()
        h.store = store
        r, e, b = E.region(fr, body, header, {header: [h]})
        return [(None, s) for s in r] + list(e)

    exits = generic(base)
    guarded = len(E.panics) > np
    del E.panics[np:]
    forms_e = []
    for tgt, s in exits:
        d = delta(s.store, base)
        if d is None or any(foreign(f, kv, allowed) for f in d):
            return None
        forms_e.append(band(*d))
    if not exits:
        return None
    ec = simplify_or(base, forms_e)
    if guarded:
        ec = unguard(base, ec, [band(cl(band(*common)), cl(c)) for c in conds])
    cases = trip_count(s0.store, ec, kv, bool(todo))
    if cases is None:
        return None
    rets, outs = [], []
    for st, n in cases:
        lim = st.refine(kvar - n, drange(None, 0))
        if lim is None:
            continue
        for tgt, s in generic(typed(lim)):
            # the exit is taken at iteration n
            f = lambda t: deep_subst(t, lambda a: n if a is kv else None)
            store = st
            ok = True
            for k, d in s.store.c.items():
                if st.c.get(k) != d:
                    k2 = f(k)
                    store = store.refine(k2, d)
                    if store is None:
                        ok = False
                        break
            if not ok:
                continue
            s2 = state_map(s, f, store)
            if foreign_state(s2, kv, fr):
                return None
            if tgt is None:
                rets.append(s2)
            else:
                outs.append((tgt, s2))
    return rets, outs


def overflow_check(f, names):
    """comparison of one loop-carried integer with a large constant"""
    g = f.args[0] if f.op == "not" else f
    if g.op != "cmp" or g.args[0] == "==" or not g.args[2]:
        return False
    q = g.args[1]
    a = (q - q.const()).normalize(True)[0].atom()
    return a is not None and a.op == "ty" and (a in names or a.args[0] in names) and abs(q.const()) >= 2 ** 30


def foreign_state(s, kv, fr):
    for k in s.store.c:
        if kv in all_atoms(k):
            return True
    return False


def as_dom(f):
    """(key polynomial, value set, integer) of an atomic comparison"""
    neg = f.op == "not"
    g = f.args[0] if neg else f
    if g.op != "cmp":
        return None
    rel, q, integer = g.args
    if neg:
        rel = {"==": "!=", "<=": ">", "<": ">="}[rel]
    c = q.const()
    d = dcmp(rel, integer)
    return q - const(c), dadd(d, dconst(-c)), integer


def union_of(f, g):
    """one comparison equivalent to f or g"""
    a, b = as_dom(f), as_dom(g)
    if a is None or b is None or a[0] != b[0] or a[2] != b[2]:
        return None
    u = a[1].union(b[1], a[2])
    if len(u.iv) > 2 or (len(u.iv) == 2 and not a[2]):
        return None
    r = dom_formula(a[0], u, a[2])
    return r if r.op in ("cmp", "true") or r.op == "not" and r.args[0].op == "cmp" else None


def simplify_or(base, fs):
    """disjunction; f1 = g & h, f2 = g & not h give g when that is easily seen"""
    fs = list(dict.fromkeys(fs))
    ch = True
    while ch and len(fs) > 1:
        ch = False
        for i in range(len(fs)):
            for j in range(len(fs)):
                if i == j:
                    continue
                a = set(fs[i].args) if fs[i].op == "and" else {fs[i]}
                b = set(fs[j].args) if fs[j].op == "and" else {fs[j]}
                if a <= b:
                    del fs[j]
                    ch = True
                    break
                da, db = a - b, b - a
                if len(da) == 1 and len(db) == 1 and bnot(next(iter(da))) is next(iter(db)):
                    fs[i] = band(*[x for x in fs[i].args if x not in da]) if fs[i].op == "and" else TRUE
                    del fs[j]
                    ch = True
                    break
                if len(da) == 1 and len(db) == 1:
                    u = union_of(next(iter(da)), next(iter(db)))
                    if u is not None:
                        fs[i] = band(u, *(a & b))
                        del fs[j]
                        ch = True
                        break
                if len(da) == 1 and bnot(next(iter(da))) in db:
                    # a | (not a & c) = a | c, relative to the common part
                    drop = bnot(next(iter(da)))
                    fs[j] = band(*[x for x in (fs[j].args if fs[j].op == "and" else (fs[j],)) if x is not drop])
                    ch = True
                    break
            if ch:
                break
    if base is not None and 1 < len(fs) <= 4:
        fs = drop_conjuncts(base, fs)
    return bor(*sorted(fs, key=lambda t: repr(t)))


def excluded(stores, f):
    return all(not x.assume(f, False) for x in stores)


def drop_conjuncts(base, fs):
    """an equivalent disjunction (in base) of fewer and shorter conjunctions"""
    conj = [list(f.args) if f.op == "and" else [f] for f in fs]
    common = [c for c in conj[0] if all(c in d for d in conj)]
    f = bor(*fs)
    g = band(*common)
    if excluded(base.assume(g, True), f):
        return [g]
    if sum(len(c) for c in conj) > 10:
        return fs
    i = 0
    while i < len(conj):
        # all of it implied by the others?
        rest = bor(*[band(*c) for j, c in enumerate(conj) if j != i])
        if len(conj) > 1 and excluded(base.assume(band(*conj[i]), True), rest):
            del conj[i]
            f = bor(*[band(*c) for c in conj])
            continue
        for c in list(conj[i]):
            if c in common:
                continue
            shorter = [x for x in conj[i] if x is not c]
            if excluded(base.assume(band(*shorter), True), f):
                conj[i] = shorter
                f = bor(*[band(*c) for c in conj])
        i += 1
    return [band(*c) for c in conj]


def unguard(base, ec, goes_on):
    """a shorter condition that tells exits from continuing iterations; what holds where an iteration panics does not matter
    (the panic is reported by itself, and nothing runs after it)"""
    def separates(f):
        return all(not z for g in goes_on for x in base.assume(g, True) for z in [x.assume(f, True)])
    conj = [list(f.args) if f.op == "and" else [f] for f in (ec.args if ec.op == "or" else (ec,))]
    for c in conj:
        for x in sorted(c, key=lambda t: ("elem(" in repr(t), repr(t))):
            shorter = [y for y in c if y is not x]
            if shorter and separates(band(*shorter)):
                c.remove(x)
    return bor(*sorted({band(*c) for c in conj}, key=repr))


def trip_count(st, ec, kv, need):
    """[(store, n)]: the least k >= 0 at which the exit condition holds, by cases; None when unknown"""
    out = []
    if ec is TRUE:
        return [(st, ZERO)]
    l = linear(ec, kv)
    if l is not None:
        rel, c, rest = l
        if c == 1 or rel in ("!=",):
            r = -rest
            if rel == ">=":
                for x in st.assume(cmp("<=", r, True), True):
                    out.append((x, ZERO))
                for x in st.assume(cmp("<=", r, True), False):
                    out.append((x, r))
                return out
            if rel == "==":
                for x in st.assume(cmp(">=", r, True), True):
                    out.append((x, r))
                return out
            if rel == "<=":
                for x in st.assume(cmp("<=", rest, True), True):
                    out.append((x, ZERO))
                return out
            if rel == "!=" and c == 1:
                for x in st.assume(cmp("==", rest, True), False):
                    out.append((x, ZERO))
                for x in st.assume(cmp("==", rest, True), True):
                    out.append((x, ONE))
                return out
        if rel == ">=" and c > 1:
            if not need:
                return None
            for x in st.assume(cmp(">=", rest, True), True):
                out.append((x, ZERO))
            for x in st.assume(cmp(">=", rest, True), False):
                out.append((x, iexpr("idiv", -rest + (c - 1), const(c))))
            return out
    n = P(first_k(kv, ec))
    st = reached(st, ec, kv, n)
    fs = ec.args if ec.op == "or" else (ec,)
    for f in fs:
        l = linear(f, kv)
        if l is not None and l[0] == ">=" and l[1] == 1:
            r = -l[2]
            for x in st.assume(cmp("<=", r, True), True):
                out.append((x, ZERO))
            for x in st.assume(cmp("<=", r, True), False):
                y = x.refine(n - r, drange(None, 0))
                if y is not None:
                    out.append((y, n))
            return out
    return [(st, n)]


def reached(st, ec, kv, n):
    """the search stops at the latest where its condition is already known to hold"""
    pats = {}
    for f in all_atoms(ec):
        if f.op == "elem":
            i = P(f.args[1])
            c = i.d.get(((kv, 1),))
            if c in (1, -1):
                pats.setdefault(f.args[0], set()).add((i - P(kv).scale(c), c))
    seen = set()
    for q in list(st.c):
        for a in all_atoms(q):
            if a.op == "elem" and a.args[0] in pats:
                for rest, c in pats[a.args[0]]:
                    k = (P(a.args[1]) - rest).scale(c)
                    if k in seen or st.bounds(k).lo()[0] < 0:
                        continue
                    seen.add(k)
                    if st.truth(deep_subst(ec, lambda t: k if t is kv else None)) is True:
                        st = st.refine(n - k, drange(None, 0)) or st
    return st


def accumulate(E, key, x, name, pending, vals, backs, conds, cl, kv, kvar, base=None):
    """closed form at kvar of one loop-carried location"""
    others = [n for n in pending if n is not name]
    cs = [cl(c) for c in conds]
    x0 = x[2]
    if x[0] == "bool":
        return flag(x, name, others, [cl(v) for v in vals], cs, kv, kvar, base)

    def at(body, sort):
        return body
    if x[0] == "phi":
        if any(not isinstance(v, Poly) for v in vals):
            return None
        vs = [cl(v) for v in vals]
        if any(occurs(v, others) for v in vs):
            return None
        uses = [c for c in cs if occurs(c, others + [name])]
        if uses and len(set(vs)) > 1:
            # conditions that only tell apart paths with the same value do not matter
            groups = {}
            for v, c in zip(vs, cs):
                groups.setdefault(v, []).append(c)
            vs, cs = list(groups), [simplify_or(base, fs) for fs in groups.values()]
            if any(occurs(c, others) for c in cs):
                return None
        j = fresh()
        ren = lambda t: deep_subst(t, lambda a: P(j) if a is kv else None)
        gs = [v - P(name) for v in vs]
        if len(set(gs)) == 1 and not occurs(gs[0], [name]):
            return x0 + sum_k(kvar, j, ren(gs[0]))
        if all(not occurs(g, [name]) for g in gs) and not any(occurs(c, [name]) for c in cs):
            order = sorted(range(len(gs)), key=lambda i: (gs[i] != ZERO, -len(repr(cs[i]))))
            d = order[0]
            body = gs[d]
            groups = {}
            for i in order[1:]:
                if gs[i] != gs[d]:
                    groups.setdefault(gs[i], []).append(cs[i])
            for gval, fl in groups.items():
                body = body + ind(simplify_or(base, fl)) * (gval - gs[d])
            return x0 + sum_k(kvar, j, ren(body))
        if all(not occurs(v, [name]) for v in vs) and not any(occurs(c, [name]) for c in cs):
            # overwritten in every iteration
            body = select(vs, cs, base)
            prev = deep_subst(body, lambda a: kvar - 1 if a is kv else None)
            if deep_subst(prev, lambda a: ZERO if a is kv else None) == x0:
                return prev
            return ite(cmp("==", kvar, True), x0, prev)
        if name.sort == "real" and not any(occurs(c, [name]) for c in cs):
            r = times_k(kvar, kv, x0, j, name, vs, cs, base)
            if r is not None:
                return r
        if len(vs) <= 4:
            p = fresh(name.sort, None)
            body = select(vs, cs, base)
            body = deep_subst(body, lambda a: P(j) if a is kv else P(p) if a is name else None)
            return P(iter_k(kvar, x0, j, p, body))
        return None
    if x[0] == "sym":
        r = shrink(E, x0, name, vals, cs, kvar, backs, base)
        if r is not None:
            return r
        if any(isinstance(v, eng.Sym) and v.t.op == "setelem" for v in vals):
            return fill(E, x0, name, others, vals, cs, cl, kv, kvar, backs, base)
        chains = []
        for v in vals:
            if not isinstance(v, eng.Sym):
                return None
            t = v.t
            els = []
            while t.op == "push":
                els.append(t.args[1])
                t = t.args[0]
            if t is not name:
                return None
            els.reverse()
            chains.append([cl(e) for e in els])
        if any(occurs(e, pending) for c in chains for e in c):
            return None
        if len(set(map(tuple, chains))) > 1 and any(occurs(c, pending) for c in cs):
            return None
        j = fresh()
        ren = lambda t: deep_subst(t, lambda a: P(j) if a is kv else None)
        try:
            t0 = E.term(backs[0], x0)
        except eng.Imprecise:
            return None
        lens = {len(c) for c in chains}
        if lens == {1}:
            e = select([c[0] for c in chains], cs, base)
            return concat_(t0, mapvec_k(kvar, j, ren(e)))
        if lens == {0, 1}:
            some = [i for i in range(len(chains)) if chains[i]]
            c = simplify_or(base, [cs[i] for i in some])
            e = select([chains[i][0] for i in some], [cs[i] for i in some], base)
            return concat_(t0, filtermap_k(kvar, j, ren(c), ren(e)))
        return None
    return None


def flag(x, name, others, vals, cs, kv, kvar, base):
    """closed form (0 or 1) of a truth value that is only ever left alone or set to one constant"""
    me = x[1]
    to = {v for v in vals if v is not me and v != me}
    if len(to) != 1 or x[2] not in (TRUE, FALSE):
        return None
    c = to.pop()
    if c not in (TRUE, FALSE):
        return None
    if c is x[2]:
        return ONE if c is TRUE else ZERO
    sets = [f for v, f in zip(vals, cs) if v == c]
    if any(occurs(f, others + [name]) for f in sets):
        # whether it is already set does not matter when it is set
        sets = [simplify_or(base, cs)] if len(sets) == len(cs) else [simplify_or(base, sets)]
        if any(occurs(f, others + [name]) for f in sets):
            return None
    j = fresh()
    f = deep_subst(simplify_or(base, sets), lambda a: P(j) if a is kv else None)
    hit = cmp(">", sum_k(kvar, j, ind(f)), True)
    return ind(hit if c is TRUE else bnot(hit))


def shrink(E, x0, name, vals, cs, kvar, backs, base):
    """a sequence that loses a fixed number of elements at one end in every iteration (in every one that finds it not empty)"""
    cuts = []
    for v in vals:
        if not isinstance(v, eng.Sym):
            return None
        t, f, b = v.t, 0, 0
        while t.op in ("removed", "popped"):
            if t.op == "removed":
                if t.args[1] != ZERO:
                    return None
                f += 1
            else:
                b += 1
            t = t.args[0]
        if t is not name:
            return None
        cuts.append((f, b))
    full = max(cuts)
    if sum(full) == 0 or 0 not in full:
        return None
    n = sum(full)
    t0 = E.term(backs[0], x0)
    total = seq_len(t0)
    if set(cuts) == {full}:
        k = kvar.scale(n)
        rest = total - k
    elif set(cuts) == {full, (0, 0)} and n == 1:
        # unchanged exactly when empty
        empty = cmp("==", P(mk("len", name, sort="int")), True)
        for c, o in zip(cuts, cs):
            if not formula_equal(base, o, empty if c == (0, 0) else bnot(empty), 4):
                return None
        k = ite(cmp("<=", kvar - total, True), kvar, total)
        rest = total - k
    else:
        return None
    j = fresh()
    return mapvec_k(rest, j, seq_elem(t0, k + P(j) if full[0] else P(j)))


def fill(E, x0, name, others, vals, cs, cl, kv, kvar, backs, base):
    """a sequence one element of which is overwritten in (some of) the iterations: the same one in all, or one after the other"""
    idx, new = None, []
    for v in vals:
        if isinstance(v, eng.Agg):
            return None
        t = v.t
        w = None
        if t.op == "setelem":
            i = P(cl(t.args[1]))
            if idx is not None and idx != i:
                return None
            idx = i
            w = cl(t.args[2])
            while t.op == "setelem":
                if P(cl(t.args[1])) != idx:
                    return None
                t = t.args[0]
        if t is not name:
            return None
        new.append(w)
    if occurs(idx, others + [name]):
        return None
    t0 = E.term(backs[0], x0)
    n = seq_len(t0)
    step = idx.d.get(((kv, 1),), 0)
    c = idx - P(kv).scale(step)
    if kv in all_atoms(c):
        return None
    j = fresh()

    wrap = []
    for w in [cl(t) for v in vals for t in [v.t]] + list(cs):
        for a in all_atoms(w):
            if a.op == "ty" and isinstance(a.args[0], T) and a.args[0].op == "elem" and a.args[0].args[0] is name:
                wrap.append(a)

    def num(x, sort):
        if isinstance(x, T) and x.op == "elem" and sort in ("int", "real"):
            if wrap:
                return P(mk("ty", mk(x.op, *x.args), *wrap[0].args[1:], sort=wrap[0].sort))
            if sort == "real":
                return P(mk("ty", mk(x.op, *x.args), None, None, sort="real"))
            return P(mk(x.op, *x.args, sort=sort))
        if sort in ("int", "real") and isinstance(x, T):
            return P(x)
        return x

    def at(i, f):
        """replace the elements of the sequence in an expression: f(their index)"""
        def g(a):
            if isinstance(a, T) and a.op == "ty" and isinstance(a.args[0], T) and a.args[0].op == "elem" and a.args[0].args[0] is name:
                return f(P(a.args[0].args[1]))
            if isinstance(a, T) and a.op == "elem" and a.args[0] is name:
                return f(P(a.args[1]))
            if isinstance(a, T) and a.op == "len" and a.args[0] is name:
                return n
            return None
        return deep_subst(i, g)
    sort = next((w.sort if isinstance(w, T) else "int" if is_int_poly(w) else "real" for w in new if w is not None), None)
    if step == 0:
        # one element, a recurrence of its own
        p = fresh("real" if sort in ("int", "real") else sort, None)
        pv = P(p) if p.sort in ("int", "real") else p
        bad = []

        def f(i):
            if i != c:
                bad.append(i)
            return pv
        ws = [pv if w is None else at(w, f) for w in new]
        cc = [at(x, f) for x in cs]
        if bad or any(occurs(x, others + [name]) for x in ws + (cc if len(set(ws)) > 1 else [])):
            return None
        e0 = num(seq_elem(t0, c), sort)
        last = times_k(kvar, kv, e0, j, p, ws, cc, base)
        if last is None:
            body = deep_subst(select(ws, cc, base), lambda a: P(j) if a is kv else None)
            last = iter_k(kvar, e0, j, p, body)
        return mk("setelem", t0, c, last)
    if step != 1:
        return None
    kinds = set()

    def f(i):
        d = i - idx
        if d == ZERO:
            kinds.add("own")
            return num(seq_elem(t0, idx), sort)
        if d == const(-1):
            kinds.add("previous")
            return pv
        lo = base.bounds(d).lo()[0] if base is not None else NINF
        if lo >= 0:
            return num(seq_elem(t0, i), sort)
        kinds.add("other")
        return ZERO
    p = fresh("real" if sort in ("int", "real") else sort, None)
    pv = P(p) if p.sort in ("int", "real") else p
    ws = [num(seq_elem(t0, idx), sort) if w is None else at(w, f) for w in new]
    cc = [at(x, f) for x in cs]
    if "other" in kinds or any(occurs(x, others + [name]) for x in ws + (cc if len(set(ws)) > 1 else [])):
        return None
    body = select(ws, cc, base)
    if "previous" in kinds:
        i = fresh()
        x = iter_k(P(j) + 1, num(seq_elem(t0, c - 1), sort), i, p, deep_subst(body, lambda a: P(i) if a is kv else None))
    else:
        x = deep_subst(body, lambda a: P(j) if a is kv else None)
    return seq_concat(seq_slice(t0, ZERO, c), mapvec_k(kvar, j, x), seq_slice(t0, c + kvar, n))


def factor(x, p):
    """x / p for an x that is a multiple of p"""
    a = x.atom()
    if a is not None and a.op == "ite" and p in all_atoms(a) and p not in all_atoms(a.args[0]):
        u, v = (factor(P(y), p) for y in a.args[1:])
        return None if u is None or v is None else P(ite(a.args[0], u, v))
    f = ZERO
    for m, c in x.d.items():
        if dict(m).get(p) != 1:
            return None
        f = f + Poly({tuple((a, e) for a, e in m if a is not p): c})
    return None if p in all_atoms(f) else f


def times_k(n, kv, x0, j, p, ws, cs, base):
    """x0 times the product of the factors by which every path multiplies; None when one does something else"""
    fs = []
    for x in ws:
        if not isinstance(x, Poly):
            return None
        f = factor(x, p)
        if f is None:
            return None
        fs.append(f)
    if any(p in all_atoms(c) for c in cs) and len(set(fs)) > 1:
        return None
    f = deep_subst(select(fs, cs, base), lambda a: P(j) if a is kv else None)
    return P(x0) * prod_k(n, j, f)


def seq_slice(t, a, b):
    """elements a .. b-1"""
    n = P(b) - P(a)
    if n == ZERO:
        return mk("vecof")
    j = fresh()
    return mapvec_k(n, j, seq_elem(t, P(a) + P(j)))


def seq_concat(*ts):
    r = mk("vecof")
    for t in ts:
        r = concat_(r, t)
    return r


seq_elem = pick


def select(vs, cs, base=None):
    """the value of the taken path"""
    groups = {}
    for v, c in zip(vs, cs):
        groups.setdefault(v, []).append(c)
    items = [(simplify_or(base, c), v) for v, c in groups.items()]
    items.sort(key=lambda x: len(repr(x[0])))
    r = items[-1][1]
    for c, v in reversed(items[:-1]):
        r = ite(c, v, r)
    return r


# -- bisection ---------------------------------------------------------------------------------------------

def bisect(E, fr, body, header, s0, gen, phis):
    """a loop that narrows down [L, H) to the first element of a sorted sequence that is past something"""
    if len(phis) != 2 or any(x[0] != "phi" or not is_int_poly(x[1]) for x in phis.values()):
        return None
    (ka, xa), (kb, xb) = phis.items()
    a, b, a0, b0 = P(xa[1]), P(xb[1]), P(xa[2]), P(xb[2])
    for L, H, l0, h0, final in ((a, b, a0, b0, lambda r: (r, r)), (b, a, b0, a0, lambda r: (r, r)),
                                (a, a + b, a0, a0 + b0, lambda r: (r, ZERO)), (b, a + b, b0, a0 + b0, lambda r: (ZERO, r))):
        if not s0.store.equal(l0, ZERO) or s0.store.bounds(h0).lo()[0] < 0:
            continue
        st = gen.store
        for p in (L, H - L, h0 - H):
            st = st.refine(p, drange(0, None)) if st is not None else None
        if st is None:
            continue
        np = len(E.panics)
        r = narrowing(E, fr, body, header, gen, st, phis, L, H, h0)
        del E.panics[np:]
        if r is None:
            continue
        r, past = r
        ends = []
        x = s0.store.refine(h0 - r, drange(1, None))
        if x is not None:
            ends += x.assume(past(r), True)
        x = s0.store.refine(h0 - r, dconst(0))
        if x is not None:
            ends.append(x)
        starts = []
        for store in ends:
            g = s0.copy()
            g.store = store
            for (cell, path), v in zip((ka, kb), final(r)):
                g.mem[cell] = E.write_path(g, g.mem[cell], path, v)
            starts.append(g)
        rets, exits, backs = E.region(fr, body, header, {header: starts})
        if backs:
            del E.panics[np:]
            continue
        return rets, exits
    return None


def narrowing(E, fr, body, header, gen, st, phis, L, H, h0):
    # the loop ends when nothing is left
    g = gen.copy()
    g.store = st
    rets, exits, backs = E.region(fr, body, header, {header: [g]})
    if rets or not exits or any(s.store.bounds(H - L).hi()[0] > 0 for _, s in exits):
        return None
    # and goes on while something is; the middle lies inside
    base = st.refine(H - L, drange(1, None))
    for q in (L + iexpr("idiv", H - L, const(2)), iexpr("idiv", H + L, const(2))):
        for p in (q, q - L, H - q - 1, h0 - q - 1):
            base = base.refine(p, drange(0, None)) if base is not None else None
    if base is None:
        return None
    g = gen.copy()
    g.store = base
    np = len(E.panics)
    rets, exits, backs = E.region(fr, body, header, {header: [g]})
    if rets or exits or not backs or len(E.panics) > np:
        return None
    m, below, above = None, [], []
    ats = [x[1].atom() for x in phis.values()]
    for s in backs:
        if s.ev != gen.ev or s.notes != gen.notes or s.store.bounds(H - L).lo()[0] < 1:
            return None
        new = {x[1].atom(): E.read_path(s, s.mem[key[0]], key[1]) for key, x in phis.items()}
        L2, H2 = L.subst(new.get), H.subst(new.get)
        if s.store.equal(H2, H):
            k, to = L2 - 1, below
        elif s.store.equal(L2, L):
            k, to = H2, above
        else:
            return None
        if m is None:
            m = k
        elif not s.store.equal(m, k):
            return None
        if s.store.bounds(m - L).lo()[0] < 0 or s.store.bounds(H - m).lo()[0] < 1:
            return None
        d = delta(s.store, base)
        if d is None:
            return None
        to.append(band(*d))
    if not below or not above:
        return None
    past = simplify_or(base, above)
    if not formula_equal(base, past, bnot(simplify_or(base, below)), 4):
        return None
    kv = fresh()

    def f(t):
        if isinstance(t, T) and t.op == "elem" and (P(t.args[1]) == m or base.equal(P(t.args[1]), m)):
            return mk("elem", t.args[0], P(kv), sort=t.sort)
        return None
    s = deep_subst(past, f)
    if occurs(s, ats) or not increasing(s, kv):
        return None
    at = lambda k: deep_subst(s, lambda t: k if t is kv else None)
    return first_(lambda k: bor(at(k), cmp(">=", k - h0, True))), at


def increasing(f, kv):
    """true from some element on in a sequence sorted in ascending order: elem(k) >= v or elem(k) > v"""
    neg = f.op == "not"
    g = f.args[0] if neg else f
    if g.op != "cmp" or g.args[0] not in ("<=", "<"):
        return False
    q = g.args[1]
    ms = [(mono, c) for mono, c in q.d.items() if any(kv in all_atoms(x) for x, _ in mono)]
    if len(ms) != 1:
        return False
    mono, c = ms[0]
    return len(mono) == 1 and mono[0][1] == 1 and (c > 0) == neg
