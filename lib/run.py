"""Check runner: build the MIR driver, dump facts from /repo's current source, run one property's rules,
write the evidence file, report violations."""
import fcntl
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(ROOT, ".build")
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

import mir  # noqa: E402
import loops  # noqa: E402
import terms  # noqa: E402
import engine  # noqa: E402
import models  # noqa: E402
import strings  # noqa: E402
import dates  # noqa: E402
from terms import *  # noqa: E402
from engine import *  # noqa: E402
from mir import Missing, tystr  # noqa: E402


def sh(cmd, env=None, cwd=None):
    r = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def file_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]


def repo_files():
    out = []
    for base, ds, fs in os.walk(REPO):
        ds[:] = sorted(d for d in ds if d not in ("target", ".git"))
        for f in sorted(fs):
            if f.endswith(".rs") or f in ("Cargo.toml", "rust-toolchain", "rust-toolchain.toml"):
                out.append(os.path.join(base, f))
    return out


def sysroot():
    rc, o = sh(["rustc", "+nightly", "--print", "sysroot"])
    if rc:
        raise RuntimeError("rustc +nightly: " + o)
    return o.strip().splitlines()[-1]


def build_driver():
    src = os.path.join(ROOT, "mirdump", "main.rs")
    os.makedirs(BUILD, exist_ok=True)
    exe = os.path.join(BUILD, "mirdump-" + file_hash([src]))
    if not os.path.exists(exe):
        tmp = exe + ".%d" % os.getpid()
        rc, o = sh(["rustc", "+nightly", "--edition", "2021", "-O", src, "-o", tmp])
        if rc:
            raise RuntimeError("building the MIR driver failed:\n" + o)
        os.rename(tmp, exe)
    return exe


def dump_facts():
    """facts of /repo's current working tree"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe = build_driver()
        key = file_hash(repo_files() + [os.path.join(ROOT, "mirdump", "main.rs")])
        out = os.path.join(BUILD, "facts-%s.json" % key)
        if os.path.exists(out):
            os.utime(out)
            return out
        sr = sysroot()
        work = tempfile.mkdtemp(prefix="facts", dir=BUILD)
        try:
            # a copy of the sources, so that nothing is ever written in /repo (Cargo.lock, target)
            src = os.path.join(work, "src")
            os.mkdir(src)
            shutil.copytree(os.path.join(REPO, "src"), os.path.join(src, "src"))
            shutil.copy(os.path.join(REPO, "Cargo.toml"), src)
            for extra in ("build.rs", "rust-toolchain", "rust-toolchain.toml", "README.md"):
                p = os.path.join(REPO, extra)
                if os.path.exists(p):
                    shutil.copy(p, src)
            for extra in ("examples", "benches", "tests", "crates"):
                p = os.path.join(REPO, extra)
                if os.path.isdir(p):
                    shutil.copytree(p, os.path.join(src, extra))
            lock = os.path.join(REPO, "Cargo.lock")
            if not os.path.exists(lock):
                lock = os.path.join(ROOT, "mirdump", "repo.Cargo.lock")
            shutil.copy(lock, os.path.join(src, "Cargo.lock"))
            env = dict(os.environ)
            env.pop("RUSTC_WRAPPER", None)
            env.pop("RUSTFLAGS", None)
            tmp = os.path.join(work, "facts.json")
            env.update(LD_LIBRARY_PATH=sr + "/lib", RUSTC_WORKSPACE_WRAPPER=exe, MIRDUMP_OUT=tmp,
                       CARGO_TARGET_DIR=os.path.join(work, "target"), CARGO_INCREMENTAL="0")
            rc, o = sh(["cargo", "+nightly", "check", "--offline", "--lib", "--manifest-path", os.path.join(src, "Cargo.toml")], env=env)
            if rc or not os.path.exists(tmp):
                raise RuntimeError("dumping MIR facts failed:\n" + o)
            os.rename(tmp, out)
        finally:
            shutil.rmtree(work, ignore_errors=True)
        old = sorted((os.path.join(BUILD, f) for f in os.listdir(BUILD) if f.startswith("facts-")), key=os.path.getmtime)
        for f in old[:-6]:
            os.unlink(f)
        return out


# ---------------------------------------------------------------------------------------------------

REG = {}


def check(pid, technique=None):
    def d(f):
        REG[pid] = f
        return f
    return d


class PANIC:
    """expected outcome: the call is rejected"""


class ANY:
    """no claim"""


class Oracle:
    """spec-side view of a partition: q(f) decides f in the partition, splitting it when needed"""

    def __init__(self, st, E):
        self.st = st
        self.E = E

    def __call__(self, f):
        if f is TRUE:
            return True
        if f is FALSE:
            return False
        s = self.st.store
        t = s.truth(f)
        if t is None and loops.has_deep(f):
            # in the words of the path: terms semantically equal to ones the path decided
            f = loops.alias(s, f)
            t = True if f is TRUE else False if f is FALSE else s.truth(f)
        if t is None:
            raise NeedAssume(f)
        return t

    def val(self, p):
        """concrete value of an integer term, splitting over its values"""
        d = self.st.store.bounds(P(p))
        v = d.singleton()
        if v is None:
            raise NeedSplit(P(p))
        return int(v)

    def lt(self, a, b):
        return self(cmp("<", P(a) - P(b), is_int_poly(P(a) - P(b))))

    def le(self, a, b):
        return self(cmp("<=", P(a) - P(b), is_int_poly(P(a) - P(b))))

    def gt(self, a, b):
        return self.lt(b, a)

    def ge(self, a, b):
        return self.le(b, a)

    def eq(self, a, b):
        return self(cmp("==", P(a) - P(b), is_int_poly(P(a) - P(b))))


def spec_leaves(E, st, spec, limit=20000):
    """[(state, expected)] for every leaf of the specification under the partition st"""
    work = [st]
    out = []
    n = 0
    while work:
        s = work.pop()
        n += 1
        if n > limit:
            raise Imprecise("specification splits a partition too finely")
        try:
            out.append((s, spec(Oracle(s, E))))
        except NeedAssume as na:
            sub = [(x, tv) for tv in (True, False) for x in s.store.assume(na.f, tv)]
            if len(sub) == 1 and sub[0][0].c == s.store.c and sub[0][0].mask == s.store.mask:
                raise Imprecise("undecidable condition %r" % (na.f,))
            for x, _ in sub:
                if x.c == s.store.c and x.mask == s.store.mask:
                    raise Imprecise("condition %r does not refine the partition" % (na.f,))
                work.append(s.with_store(x))
        except NeedSplit as ns:
            vs = s.store.bounds(ns.poly).values(3000)
            if vs is None:
                raise Imprecise("cannot split on %r" % (ns.poly,))
            for v in vs:
                x = s.store.refine(ns.poly, dconst(v))
                if x is not None:
                    work.append(s.with_store(x))
    return out


def is_vec(v):
    return isinstance(v, Agg) and v.kind in ("vec", "array") or isinstance(v, Sym) and (v.ty[0] == "slice" or v.ty[0] == "adt" and v.ty[1].endswith("vec::Vec"))


def val_eq(E, st, a, b):
    """True when two abstract values are certainly equal in st; False otherwise"""
    while isinstance(a, Ref):
        a = E.read(st, a.cell, a.path)
    while isinstance(b, Ref):
        b = E.read(st, b.cell, b.path)
    if isinstance(a, bool):
        a = TRUE if a else FALSE
    if isinstance(b, bool):
        b = TRUE if b else FALSE
    if isinstance(a, (int, Fraction)):
        a = const(a)
    if isinstance(b, (int, Fraction)):
        b = const(b)
    if isinstance(a, Poly) and isinstance(b, Poly):
        if dates.same_serial(st.store, a, b):
            return True
        if loops.has_deep(b) and loops.has_deep(a):
            c = loops.alias(st.store, b, (a,))
            return c != b and dates.same_serial(st.store, a, c)
        return False
    if isinstance(a, T) and isinstance(b, T) and a.sort == "bool" and b.sort == "bool":
        if a is b:
            return True
        return loops.formula_equal(st.store, a, b, 6)
    if isinstance(a, T) and isinstance(b, T) and a.sort != "bool" and b.sort != "bool":
        return loops.term_equal(st.store, a, b)
    sa = dates.serial_of(E, st, a) if hasattr(E, "date_ty") else None
    if sa is not None:
        sb = dates.serial_of(E, st, b)
        return sb is not None and dates.same_serial(st.store, sa, sb)
    if isinstance(a, Sym) and isinstance(b, Sym) and a.t is b.t:
        return True
    if is_vec(a) and is_vec(b):
        return loops.term_equal(st.store, E.term(st, a), E.term(st, b))
    ea = isinstance(a, Sym) and E.is_enum(a.ty[1]) if isinstance(a, Sym) and a.ty[0] == "adt" else False
    if isinstance(a, Agg) and isinstance(b, Agg):
        if a.kind != b.kind or a.path != b.path or len(a.fields) != len(b.fields):
            return False
        if a.variant != b.variant:
            return False
        return all(val_eq(E, st, x, y) for x, y in zip(a.fields, b.fields))
    if isinstance(a, (Sym, Agg)) and isinstance(b, (Sym, Agg)):
        try:
            # fieldless enums: compare discriminants
            na = a.ty[1] if isinstance(a, Sym) else a.path
            nb = b.ty[1] if isinstance(b, Sym) else b.path
            if na == nb:
                adt = E.F.adts.get(na)
                if adt is not None and adt["enum"] and all(not v[2] for v in adt["vs"]):
                    return dates.same_serial(st.store, E.discr_of(a), E.discr_of(b))
                if adt is not None and not adt["enum"]:
                    xa = a if isinstance(a, Agg) else E.expand(a)
                    xb = b if isinstance(b, Agg) else E.expand(b)
                    return all(val_eq(E, st, x, y) for x, y in zip(xa.fields, xb.fields))
            ta, tb = E.term(st, a), E.term(st, b)
            if ta is tb or loops.term_equal(st.store, ta, tb):
                return True
            if isinstance(a, Agg) and isinstance(b, Sym):
                a, b = b, a
            if isinstance(a, Sym) and isinstance(b, Agg) and na == nb and adt is not None and adt["enum"]:
                # the variant is known and every field agrees
                return dates.same_serial(st.store, E.discr_of(a), E.discr_of(b)) and \
                    all(val_eq(E, st, E.proj_field(a, b.variant, i, st), f) for i, f in enumerate(b.fields))
            return False
        except Imprecise:
            return False
    if isinstance(a, Str) and isinstance(b, Str):
        return a.s == b.s
    return a == b


class Check:
    def __init__(self, pid, F, tier, seed):
        self.pid, self.F, self.tier, self.seed = pid, F, tier, seed
        self.viol = []        # (key, message, function)
        self.obl = 0
        self.ok = 0
        self.functions = set()
        self.notes = []
        self.samples = []
        self.counts = {}
        self.partitions = 0
        self.t0 = time.time()
        self.explanation = ""
        self.assumptions = []

    # -- reporting
    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def ob(self, key, ok, msg, where=None):
        """one obligation; key identifies the rule instance (no line numbers)"""
        self.obl += 1
        if ok:
            self.ok += 1
        else:
            self.viol.append((key, msg, where))
        return ok

    def sample(self, x):
        if len(self.samples) < 8:
            self.samples.append(x)

    def floor(self, what, n, least):
        self.ob("floor:" + what, n >= least, "only %d %s analysed; at least %d expected" % (n, what, least))

    # -- engines
    def engine(self, contracts=True, **kw):
        ov = dict(kw.pop("overrides", None) or {})
        if contracts:
            d = dates.DateContracts(self.F).ov
            for k, v in d.items():
                ov.setdefault(k, v)
        E = Engine(self.F, overrides=ov, **kw)
        dates.install(E)
        E.check_owner = self
        return E

    def run(self, E, fn, args, st=None, subst=None, key=None):
        """analyse fn; an analysis that cannot be completed is reported (fail closed)"""
        try:
            r = E.run(fn, args, st, subst)
        except (Imprecise, NeedSplit, NeedAssume) as e:
            self.functions |= {k for k in E.visited if k in E.F.fns}
            self.ob((key or fn.nice()) + ":undecided", False, "analysis of %s cannot decide: %s %s" % (fn.nice(), type(e).__name__, e if isinstance(e, Imprecise) else getattr(e, "f", getattr(e, "poly", ""))), fn.nice())
            return None
        self.functions |= {k for k in E.visited if k in E.F.fns}
        self.partitions += len(r)
        return r

    def verify(self, key, fn, args, spec, E=None, st=None, subst=None, panics=True, value=None, allow_panic=None, eq=None):
        """for every partition of the inputs, the result of fn is the one the specification gives.
        spec(q) -> expected value | PANIC | ANY.  value(E, state, v) extracts the compared value."""
        E = E or self.engine()
        r = self.run(E, fn, args, st, subst, key)
        if r is None:
            return False
        good = True
        eq = eq or val_eq
        for x in r:
            try:
                for s, exp in spec_leaves(E, x.state, spec):
                    if exp is ANY:
                        continue
                    if exp is PANIC:
                        if by_enumeration(E, s, lambda s2: False):
                            continue
                        good &= self.ob(key + ":reject", False, "%s: returns %r where the call must be rejected (when %s)" % (fn.nice(), x.value, describe(s, E)), fn.nice())
                        continue
                    act = x.value if value is None else value(E, s, x.value)
                    same = eq(E, s, act, exp)
                    w = None
                    if not same:
                        w = witness(E, s, act, exp)
                        if w is False:
                            same = True
                    if not same:
                        same = by_enumeration(E, s, lambda s2: eq(E, s2, act if value is None else value(E, s2, x.value), exp))
                    if not same and loops.impossible(s.store):
                        continue
                    self.obl += 1
                    if same:
                        self.ok += 1
                    else:
                        good = False
                        self.viol.append((key, "%s: result %s, expected %s, when %s%s" % (fn.nice(), render(E, s, act), render(E, s, exp), describe(s, E), w or ""), fn.nice()))
                        break
            except (Imprecise, NeedSplit, NeedAssume) as e:
                good &= self.ob(key + ":undecided", False, "%s: cannot decide: %s (when %s)" % (fn.nice(), e, describe(x.state, E)), fn.nice())
        if panics:
            for p in E.panics:
                if allow_panic is not None and allow_panic(p):
                    continue
                try:
                    for s, exp in spec_leaves(E, p.state, spec):
                        if exp is PANIC or exp is ANY:
                            self.obl += 1
                            self.ok += 1
                            continue
                        if by_enumeration(E, s, lambda s2: False) or loops.impossible(s.store):
                            continue
                        good &= self.ob(key + ":panic", False, "%s: panics (%s at %s) where %s is expected, when %s" % (fn.nice(), p.kind, p.where, render(E, s, exp), describe(s, E)), p.where)
                        break
                except (Imprecise, NeedSplit, NeedAssume) as e:
                    good &= self.ob(key + ":undecided", False, "%s: cannot decide whether the panic (%s at %s) is specified: %s" % (fn.nice(), p.kind, p.where, e), p.where)
        return good


def by_enumeration(E, st, holds, limit=400):
    """holds in every point of a partition whose input variables take few values (infeasible points drop out)"""
    vs = set()
    for k in st.store.c:
        vs |= {a for a in all_atoms(k) if a.op == "var" and a.sort == "int"}
    if not vs or len(vs) > 3:
        return False
    work = [st.store]
    for a in sorted(vs, key=lambda a: a.id):
        nxt = []
        for s in work:
            ds = s.bounds(P(a)).values(limit)
            if ds is None:
                nxt.append(s)
                continue
            for v in ds:
                x = s.refine(P(a), dconst(v))
                if x is not None:
                    nxt.append(x)
            if len(nxt) > limit:
                return False
        work = nxt
    if len(work) == 1 and work[0].c == st.store.c:
        return False
    try:
        return all(holds(st.with_store(s)) for s in work)
    except (Imprecise, NeedSplit, NeedAssume):
        return False


def describe(st, E=None):
    s = st.store
    parts = []
    for k, d in list(s.c.items())[:8]:
        parts.append("%r in %r" % (k, d))
    if s.fd is not None:
        i = next(iter(s.fd.points(s.mask)), None)
        parts.append("%d points, e.g. %s" % (bin(s.mask).count("1"), point(s.fd, i)))
    return "; ".join(parts) or "always"


def point(fd, i):
    if i is None:
        return "none"
    out = []
    for a, c in fd.cols.items():
        if a.op == "var":
            v = c[i]
            out.append("%s=%s" % (a.args[0], v))
            if a.args[1] == dates.MIN_SERIAL and a.args[2] == dates.MAX_SERIAL:
                out.append("(%s)" % dates.to_date(v))
    return " ".join(out)


def witness(E, st, a, b):
    """a concrete point of a finite domain at which a and b differ (text), False when there is none,
    None when unknown"""
    fd = st.store.fd
    if fd is None:
        return None
    if isinstance(a, bool):
        a = TRUE if a else FALSE
    if isinstance(b, bool):
        b = TRUE if b else FALSE
    if isinstance(a, T) and isinstance(b, T):
        try:
            m = st.store.mask & (fd.fmask(a) ^ fd.fmask(b))
        except ValueError:
            return None
        i = next(iter(fd.points(m)), None)
        return " -- e.g. %s" % point(fd, i)
    if isinstance(a, (Sym, Agg)) and hasattr(E, "date_ty"):
        a, b = dates.serial_of(E, st, a), dates.serial_of(E, st, b)
    if isinstance(a, Poly) and isinstance(b, Poly) and fd.knows(a - b):
        c = fd.col(a - b)
        for i in fd.points(st.store.mask):
            if c[i] != 0:
                return " -- e.g. %s" % point(fd, i)
        return False
    return None


def render(E, st, v):
    s = repr(v)
    return s if len(s) < 300 else s[:300] + "..."


# ---------------------------------------------------------------------------------------------------

def known_findings():
    out = {}
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if not ln or ln.startswith("#") or ln.startswith("fixed:"):
                continue
            # known: property=<id> key=<key> :: text
            if ln.startswith("known:"):
                body = ln[len("known:"):].strip()
                head, _, text = body.partition("::")
                d = dict(x.split("=", 1) for x in head.split(None, 1)) if False else {}
                pid, _, key = head.strip().partition(" key=")
                d = pid.split("=", 1)[1].strip()
                out[(d, key.strip())] = text.strip()
    return out


class Timeout(Exception):
    pass


def run_one(pid, facts=None):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    F = mir.Facts(facts or dump_facts())
    ck = Check(pid, F, tier, seed)

    def alarm(*_):
        raise Timeout()
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(int(os.environ.get("VERIF_LIMIT", "780")))
    try:
        REG[pid](ck)
    except Missing as e:
        ck.ob("anchor", False, "anchor missing: %s" % e)
    except Timeout:
        if os.environ.get("VERIF_DEBUG"):
            import sys as _s
            tb = traceback.extract_tb(_s.exc_info()[2])
            print(" > ".join("%s:%d" % (f.name, f.lineno) for f in tb))
        ck.ob("undecided:time", False, "the analysis did not finish in time")
    except (Imprecise, NeedSplit, NeedAssume) as e:
        ck.ob("undecided", False, "the analysis cannot decide: %r" % (e,))
    except Exception:
        traceback.print_exc()
        ck.ob("undecided:internal", False, "the analysis cannot handle this code: " + traceback.format_exc().strip().splitlines()[-1])
    signal.alarm(0)
    if ck.obl == 0:
        ck.ob("vacuous", False, "no obligation was generated")
    known = known_findings()
    fresh, seen = [], {}
    for key, msg, where in ck.viol:
        if (pid, key) in known:
            seen.setdefault(key, msg)
        else:
            fresh.append((key, msg, where))
    for key in seen:
        print("KNOWN-FINDING: property=%s %s" % (pid, known[(pid, key)] or seen[key]))
    ev_dir = os.path.join(ROOT, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    cov = dict(explanation=ck.explanation, functions_analysed=len(ck.functions),
               functions=sorted(F.fns[k].nice() for k in ck.functions)[:60],
               obligations=ck.obl, discharged=ck.ok, partitions=ck.partitions, crate_functions=F.size)
    cov.update(ck.counts)
    if ck.samples:
        cov["samples"] = ck.samples
    if seen:
        cov["known_findings"] = sorted(seen)
    doc = dict(property=pid, tier=tier if tier in ("quick", "thorough") else "quick", seed=seed, level="other",
               coverage=cov, wall_s=round(time.time() - t0, 3), violations=len(fresh))
    if ck.assumptions:
        doc["assumptions"] = ck.assumptions
    rp = None
    if fresh:
        rp = os.path.join(ev_dir, "%s.violations.txt" % pid)
        with open(rp, "w") as f:
            for key, msg, where in fresh:
                f.write("[%s] %s\n" % (key, msg))
    tmp = os.path.join(ev_dir, "%s.json.%d" % (pid, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(doc, f, indent=1, sort_keys=True, default=str)
    os.rename(tmp, os.path.join(ev_dir, "%s.json" % pid))
    print("%s: %d obligations, %d discharged, %d functions, %d partitions, %.1fs" % (pid, ck.obl, ck.ok, len(ck.functions), ck.partitions, time.time() - t0))
    if fresh:
        first = {}
        for key, msg, where in fresh:
            first.setdefault(key, []).append(msg)
        for key, msgs in list(first.items())[:12]:
            print("  [%s] %s%s" % (key, msgs[0], " (and %d more like this)" % (len(msgs) - 1) if len(msgs) > 1 else ""))
        if len(first) > 12:
            print("  ... %d more" % (len(first) - 12))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0


def load_checks():
    d = os.path.join(ROOT, "checks")
    sys.path.insert(0, d)
    import importlib
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and not f.startswith("_"):
            importlib.import_module(f[:-3])


def main(argv):
    if argv and argv[0] == "setup":
        print(dump_facts())
        return 0
    load_checks()
    if argv and argv[0] == "all":
        from concurrent.futures import ThreadPoolExecutor
        facts = dump_facts()
        ids = argv[1:] or sorted(REG)

        def go(p):
            r = subprocess.run([sys.executable, os.path.join(HERE, "main.py"), p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            return p, r.returncode, r.stdout
        bad = 0
        with ThreadPoolExecutor(8) as ex:
            for p, rc, o in ex.map(go, ids):
                sys.stdout.write(o if rc or os.environ.get("V") else o.splitlines()[-1] + "\n" if o else "")
                bad |= rc != 0
        return int(bad)
    if len(argv) != 1 or argv[0] not in REG:
        print("usage: main.py <property id> | all | setup; known: " + " ".join(sorted(REG)))
        return 2
    return run_one(argv[0])
