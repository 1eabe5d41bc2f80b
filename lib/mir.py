"""Loader for the MIR facts written by mirdump."""
import json


def cty(t):
    k = t["k"]
    if k in ("int", "uint", "float"):
        return (k, t["bits"])
    if k in ("bool", "char", "str", "never"):
        return (k,)
    if k == "adt":
        return ("adt", t["p"], tuple(cty(x) for x in t["a"]))
    if k == "array":
        return ("array", cty(t["t"]), t["n"])
    if k == "slice":
        return ("slice", cty(t["t"]))
    if k == "ref":
        return ("ref", cty(t["t"]), t["m"])
    if k == "ptr":
        return ("ptr", cty(t["t"]))
    if k == "tuple":
        return ("tuple", tuple(cty(x) for x in t["a"]))
    if k == "fn":
        return ("fn", t["p"], t["n"], tuple(cty(x) for x in t["a"]), t.get("trait"), t.get("m"))
    if k == "closure":
        return ("closure", t["p"], tuple(cty(x) for x in t["a"]))
    if k == "param":
        return ("param", t["n"])
    if k == "dyn":
        return ("dyn", t["p"])
    if k == "const":
        return ("cgen", t["s"])
    return (k, t.get("s", ""))


def tystr(t):
    k = t[0]
    if k in ("int", "uint", "float"):
        return {"int": "i", "uint": "u", "float": "f"}[k] + str(t[1])
    if k == "adt":
        n = t[1].split("::")[-1]
        return n + ("<%s>" % ", ".join(tystr(a) for a in t[2]) if t[2] else "")
    if k == "ref":
        return "&" + ("mut " if t[2] else "") + tystr(t[1])
    if k == "array":
        return "[%s; %s]" % (tystr(t[1]), t[2])
    if k == "slice":
        return "[%s]" % tystr(t[1])
    if k == "tuple":
        return "(" + ", ".join(tystr(a) for a in t[1]) + ")"
    if k == "fn":
        return t[2]
    if k == "param":
        return t[1]
    if k == "dyn":
        return "dyn " + t[1].split("::")[-1] if t[1] else "dyn"
    return ":".join(str(x) for x in t if isinstance(x, str))


def tsubst(t, s):
    if not s:
        return t
    k = t[0]
    if k == "param":
        return s.get(t[1], t)
    if k == "adt":
        return ("adt", t[1], tuple(tsubst(x, s) for x in t[2]))
    if k == "closure":
        return ("closure", t[1], tuple(tsubst(x, s) for x in t[2]))
    if k == "array":
        return ("array", tsubst(t[1], s), t[2])
    if k in ("slice", "ptr"):
        return (k, tsubst(t[1], s))
    if k == "ref":
        return ("ref", tsubst(t[1], s), t[2])
    if k == "tuple":
        return ("tuple", tuple(tsubst(x, s) for x in t[1]))
    if k == "fn":
        return ("fn", t[1], t[2], tuple(tsubst(x, s) for x in t[3]), t[4], t[5])
    return t


def unify(pat, t, b):
    """match pattern type (with params) against a concrete type"""
    if pat[0] == "param":
        if pat[1] in b:
            return b[pat[1]] == t
        b[pat[1]] = t
        return True
    if pat[0] != t[0]:
        return False
    if pat[0] == "adt":
        return pat[1] == t[1] and len(pat[2]) == len(t[2]) and all(unify(x, y, b) for x, y in zip(pat[2], t[2]))
    if pat[0] in ("slice", "ptr"):
        return unify(pat[1], t[1], b)
    if pat[0] == "ref":
        return unify(pat[1], t[1], b)
    if pat[0] == "array":
        return unify(pat[1], t[1], b)
    if pat[0] == "tuple":
        return len(pat[1]) == len(t[1]) and all(unify(x, y, b) for x, y in zip(pat[1], t[1]))
    return pat == t


class Body:
    def __init__(self, j, fn):
        self.fn = fn
        self.argc = j["argc"]
        self.locals = [cty(l["t"]) for l in j["locals"]]
        self.names = [l["n"] for l in j["locals"]]
        self.blocks = j["blocks"]
        self._cfg = None

    def succ(self, b):
        t = self.blocks[b]["t"]
        k = t["k"]
        if k in ("goto", "drop", "assert"):
            return [t["t"]]
        if k == "switch":
            return list(t["ts"])
        if k == "call":
            return [t["t"]] if t["t"] is not None else []
        return []

    def cfg(self):
        """rpo numbering, dominators, natural loops (header -> set of blocks), liveness"""
        if self._cfg:
            return self._cfg
        seen = set()
        post = []
        st = [(0, iter(self.succ(0)))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succ(s))))
                    break
            else:
                post.append(b)
                st.pop()
        rpo = list(reversed(post))
        num = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in self.succ(b):
                preds[s].append(b)
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in preds[b] if p in idom]
                if not ps:
                    continue
                n = ps[0]
                for p in ps[1:]:
                    a, c = n, p
                    while a != c:
                        while num[a] > num[c]:
                            a = idom[a]
                        while num[c] > num[a]:
                            c = idom[c]
                    n = a
                if idom.get(b) != n:
                    idom[b] = n
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]

        loops = {}
        irreducible = False
        for b in rpo:
            for s in self.succ(b):
                if num[s] <= num[b]:
                    if not dom(s, b):
                        irreducible = True
                        continue
                    body = loops.setdefault(s, {s})
                    w = [b]
                    while w:
                        x = w.pop()
                        if x in body:
                            continue
                        body.add(x)
                        w.extend(preds[x])
        # liveness of locals (a local whose address is taken is always live)
        addr = set()
        use = {}
        deff = {}
        for b in rpo:
            u, d = set(), set()

            def rd(o):
                if o.get("k") in ("copy", "move"):
                    pl(o["p"])

            def pl(p):
                if p["l"] not in d:
                    u.add(p["l"])
                for e in p["p"]:
                    if e[0] == "i" and e[1] not in d:
                        u.add(e[1])

            def wr(p):
                if p["p"]:
                    pl(p)
                else:
                    d.add(p["l"])

            for s in self.blocks[b]["s"]:
                if s["k"] == "assign":
                    r = s["r"]
                    k = r["k"]
                    if k in ("use", "repeat", "cast"):
                        rd(r["o"])
                    elif k in ("ref", "rawptr"):
                        pl(r["p"])
                        if not any(e[0] == "d" for e in r["p"]["p"]):
                            addr.add(r["p"]["l"])
                    elif k == "bin":
                        rd(r["a"])
                        rd(r["b"])
                    elif k == "un":
                        rd(r["a"])
                    elif k == "discr":
                        pl(r["p"])
                    elif k == "agg":
                        for o in r["ops"]:
                            rd(o)
                    wr(s["p"])
                else:
                    pl(s["p"])
            t = self.blocks[b]["t"]
            k = t["k"]
            if k == "switch" or k == "assert":
                rd(t["o"])
            elif k == "call":
                rd(t["f"])
                for o in t["args"]:
                    rd(o)
                wr(t["d"])
            elif k == "return":
                if 0 not in d:
                    u.add(0)
            use[b], deff[b] = u, d
        live = {b: set() for b in rpo}
        ch = True
        while ch:
            ch = False
            for b in reversed(rpo):
                out = set()
                for s in self.succ(b):
                    out |= live[s]
                n = use[b] | (out - deff[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        self._cfg = dict(rpo=rpo, num=num, preds=preds, idom=idom, dom=dom, loops=loops, live=live, addr=addr, irreducible=irreducible)
        return self._cfg


class Fn:
    def __init__(self, j, facts):
        self.key = j["key"]
        self.path = j["path"]
        self.name = j["name"]
        self.file = j["file"]
        self.line = j["line"]
        self.kind = j["kind"]
        self.assoc = j["assoc"]
        self.generics = j["generics"]
        self.pub = j["pub"]
        self.body = Body(j["body"], self)
        self.promoted = [Body(p, self) for p in j["promoted"]]
        a = self.assoc or {}
        self.self_ty = cty(a["self"]) if "self" in a else None
        self.trait = a.get("trait")
        self.impl = a.get("impl")
        self.intrait = a.get("intrait")
        self.is_closure = self.kind == "Closure"

    def nice(self):
        f = self.file.split("src/")[-1]
        if self.self_ty is not None:
            s = tystr(self.self_ty)
            if self.trait:
                s = "<%s as %s>" % (s, self.trait.split("::")[-1])
            return "%s: %s::%s" % (f, s, self.name)
        if self.intrait:
            return "%s: trait %s::%s" % (f, self.intrait.split("::")[-1], self.name)
        return "%s: %s" % (f, self.key.split("::", 1)[-1])


class Facts:
    def __init__(self, path):
        j = json.load(open(path))
        self.crate = j["crate"]
        self.fns = {}
        for f in j["fns"]:
            fn = Fn(f, self)
            self.fns[fn.key] = fn
        self.std = {}
        for f in j.get("std", ()):
            fn = Fn(f, self)
            self.std[fn.key] = fn
        self.consts = {c["key"]: c for c in j["consts"]}
        self.adts = {}
        for a in j["adts"]:
            a["vs"] = []
            for v in a["variants"]:
                a["vs"].append((v["n"], int(v["d"]), [(f["n"], cty(f["t"]), f["pub"]) for f in v["fs"]]))
            self.adts[a["key"]] = a
        self.impls = []
        for i in j["impls"]:
            i["selfty"] = cty(i["self"])
            i["targsty"] = tuple(cty(x) for x in i["targs"])
            self.impls.append(i)
        self.impls_by_trait = {}
        for i in self.impls:
            if i["trait"]:
                self.impls_by_trait.setdefault(i["trait"], []).append(i)
        self.traits = {t["key"]: t for t in j["traits"]}
        self.trait_methods = {}
        for t in j["traits"]:
            for m in t["methods"]:
                self.trait_methods[m["key"]] = (t["key"], m["n"], m["default"])
        self.size = len(j["fns"])

    # -- semantic look-ups -------------------------------------------------------------------------
    def find(self, name, self_=None, trait=None, mod=None, arg=None):
        """functions by name / self type / trait; arg: predicate on rendered trait args"""
        out = []
        for f in self.fns.values():
            if f.name != name or f.is_closure:
                continue
            if mod is not None and not f.key.startswith("%s::%s" % (self.crate, mod)):
                continue
            if self_ is None:
                pass
            elif f.self_ty is None or tystr(f.self_ty) != self_:
                if not (f.intrait and f.intrait.split("::")[-1] == self_):
                    continue
            if trait is None:
                if self_ is not None and f.trait is not None:
                    continue
            elif trait != "*":
                if f.trait is None or f.trait.split("::")[-1] != trait:
                    continue
            if arg is not None:
                ta = [tystr(cty(x)) for x in (f.assoc or {}).get("targs", [])][1:]
                if ta != list(arg):
                    continue
            out.append(f)
        return out

    def one(self, name, self_=None, trait=None, mod=None, arg=None):
        r = self.find(name, self_, trait, mod, arg)
        if len(r) != 1:
            raise Missing("anchor %s%s%s not found uniquely (%d candidates)" % (
                (self_ + "::") if self_ else "", name, (" of trait " + trait) if trait else "", len(r)))
        return r[0]

    def adt(self, name):
        r = [a for a in self.adts.values() if a["key"].split("::")[-1] == name and a["key"].startswith(self.crate)]
        if len(r) != 1:
            raise Missing("type %s not found uniquely (%d)" % (name, len(r)))
        return r[0]

    def adt_ty(self, name, args=()):
        return ("adt", self.adt(name)["key"], tuple(args))


class Missing(Exception):
    pass
