"""Random schemas and schema families. Validity is decided by Unit.check; verdicts on the code by Schema.tla."""
from schema import *

LEAVES = [BOOL, INT, NULL, OID, OCTETS] + [string(s) for s in STR if s != "OCTET STRING"] + [time(t) for t in TIME] + [REAL]
COMMON = [BOOL, INT, NULL, OCTETS, string("UTF8String"), string("IA5String")]

class Gen:
    """Options: tags, depth, refs, tagp (probability of a tag), optp, defaults, kinds, reals, unusual, ext"""
    def __init__(self, rng, name, tags="EXPLICIT", ntypes=6, depth=3, tagp=.35, optp=.4, reals=True, unusual=.3, recursion=True, values=True,
                 kinds=("seq", "set", "choice", "of"), width=5, ext=.15, names="c", recursive=.06):
        self.__dict__.update(locals()); self.r = rng
    def unit(self, tries=400):
        r = self.r
        m = Module(self.name, self.tags)
        if self.values:
            for k in range(r.randrange(0, 4)):
                n = "v%d" % k
                m.vals[n] = r.choice([lambda: value_def(INT, vint(self.number())), lambda: value_def(OCTETS, vstr(self.word())),
                                      lambda: value_def(string("UTF8String"), vstr(self.word())), lambda: value_def(INT, vint(r.randrange(5)))])()
        u = Unit(self.name, [m], [])
        for k in range(self.ntypes):
            n = "T%d" % k
            for _ in range(tries):
                m.types[n] = type_def(self.type(m, 0, k))
                try: u.check(u.closure((self.name, n)))
                except (Invalid, RecursionError, KeyError): del m.types[n]; continue
                break
            else: m.types[n] = type_def(INT)
        m.order = list(m.types) + list(m.vals)
        if r.random() < .5: r.shuffle(m.order)
        u.drive = [(self.name, n) for n in m.types]
        return u
    def number(self): return self.r.choice([0, 1, -1, 5, 127, 128, 300, -70000, 2147483647, -2147483648, 4294967296])
    def word(self): return "".join(self.r.choice("abcXYZ 019") for _ in range(self.r.randrange(1, 9)))
    def items(self):
        r = self.r; n = r.randrange(1, 6); style = r.randrange(3)
        used, out = set(), []
        for i in range(n):
            if style == 0 or (style == 2 and r.random() < .5): out.append("e%d" % i)
            else:
                v = r.choice([x for x in (0, 1, 2, 3, 5, 7, 127, 128, 255, 300, 70000, -1, -5) if x not in used]); used.add(v)
                out.append(("e%d" % i, v))
        return out
    def leaf(self, inline=True):
        r = self.r; x = r.random()
        if x < .1 and inline: return enum(*self.items())
        if x < .15: return named_int(one=1, two=r.randrange(2, 400))
        t = r.choice(LEAVES if r.random() < self.unusual else COMMON)
        return t if self.reals or t is not REAL else INT
    def type(self, m, depth, before, top=True, of=False):
        r = self.r
        if r.random() < self.tagp * (.5 if top else 1):
            t = self.plain(m, depth, before, top)
            return tag(r.choice([0, 1, 2, 3, 4, 7, 30, 31, 127, 128, 300, 16384]) if r.random() < .6 else r.randrange(6), t, r.choice([2, 2, 2, 1, 3]), r.choice(["", "", "E", "I"]))
        return self.plain(m, depth, before, top)
    def plain(self, m, depth, before, top=False):
        r = self.r; x = r.random()
        if before and x < (.15 if top else .3): return ref("T%d" % r.randrange(before))
        if depth >= self.depth or x < (.4 if depth else .2): return self.leaf()
        k = r.choice(self.kinds)
        if k == "of":
            return (seq_of if r.random() < .6 else set_of)(self.type(m, depth + 1, before, False, True))
        n = r.randrange(1 if k == "choice" else 0, self.width + 1)
        cs = []
        for i in range(n):
            t = self.type(m, depth + 1, before, False)
            p, dv = "m", None
            if k != "choice":
                x = r.random()
                if x < self.optp: p = "o"
                elif x < self.optp + .2:
                    dv = self.default(m, t)
                    if dv: p = "d"
            if self.recursion and self.ntypes and top and r.random() < self.recursive and (n > 1 if k == "choice" else p == "o" or r.random() < .3):
                me = ref("T%d" % before) if r.random() < .9 else ref("T0")
                if k == "choice" or p == "o": t = tag(20 + i, me, 2, r.choice(["", "E", "I"])); 
                else: t = tag(20 + i, (seq_of if r.random() < .7 else set_of)(me), 2, r.choice(["", "E", "I"])); p, dv = "m", None
            cs.append(comp("%s%d" % (self.names, i), t, p, dv))
        e = []
        if cs and r.random() < self.ext:
            j = r.randrange(1 if k == "choice" else 0, len(cs) + 1); cs, e = cs[:j], cs[j:]
            return {"seq": seq, "set": set_, "choice": choice}[k](*cs, ext=True, exts=e)
        return {"seq": seq, "set": set_, "choice": choice}[k](*cs)
    def default(self, m, t):
        r = self.r
        while t["k"] == "tag": t = t["t"]
        if t["k"] == "ref": return self.default(m, m.types[t["n"]]["t"]) if t["n"] in m.types else None
        if t["k"] == "bool": return vbool(r.random() < .5)
        if t["k"] == "int":
            c = [vint(self.number())] + [vname(n) for n in m.vals if m.vals[n]["t"]["k"] == "int"]
            return r.choice(c)
        if t["k"] == "enum": return vname(r.choice(t["items"])["n"])
        if t["k"] == "str" and t["u"] != 3:
            c = [vstr(self.word())] + [vname(n) for n in m.vals if m.vals[n]["t"]["k"] == "str" and m.vals[n]["t"]["u"] == t["u"]]
            if t["u"] == 4: c.append(vhex(bytes(r.randrange(256) for _ in range(r.randrange(1, 5)))))
            return r.choice(c)
        if t["k"] == "real": return vreal(r.choice(["1.5", "3", "0.1", "123456.789", "0"]))
        return None

class MultiGen(Gen):
    """Several modules: names used by more than one of them, imports (also of imported names), external references,
    each with its own tagging default; parameterized types and COMPONENTS OF when asked for."""
    def __init__(self, rng, name, nmods=3, param=0.0, compof=0.0, **kw):
        Gen.__init__(self, rng, name, **kw); self.nmods, self.param, self.compof = nmods, param, compof
        self.generic, self.formals = {}, []     # (module, name) -> number of parameters
    def unit(self, tries=60):
        r = self.r
        self.mods = []
        self.u = u = Unit(self.name, [], [])
        for k in range(self.nmods):
            m = Module("%s%s" % (self.name, "abcdef"[k]), r.choice(["EXPLICIT", "IMPLICIT", "AUTOMATIC"]))
            own = {n for n in ("T0", "T1", "T2", "T3", "T4", "T5", "T6") if r.random() < .5} | {"X%d" % k}
            if k == 0: own |= {"T0", "T1"}
            vals = {n for n in ("v0", "v1", "v2") if r.random() < .4}
            for n in sorted(vals): m.vals[n] = r.choice([lambda: value_def(INT, vint(self.number())), lambda: value_def(OCTETS, vstr(self.word()))])()
            for p in self.mods:
                names = [n for n in list(p.types) + list(p.vals) + [n for i in p.imports for n in i["names"]]
                         if n not in own and n not in vals and all(n not in i["names"] for i in m.imports) and r.random() < .5]
                if names: m.imports.append({"from": p.name, "names": names})
            self.mods.append(m); u.modules.append(m); u.mods[m.name] = m
            for n in sorted(own):
                for _ in range(tries):
                    self.formals = ["P%d" % i for i in range(r.randrange(1, 3))] if r.random() < self.param else []
                    self.left = set(self.formals)
                    t = self.type(m, 0, 1) if not self.formals else self.plain(m, 0, 1, True)
                    if self.formals and self.left: continue
                    m.types[n] = type_def(t, *self.formals)
                    if self.formals: self.generic[(m.name, n)] = len(self.formals); self.formals = []
                    try:
                        if (m.name, n) in self.generic: u.check((m.name, ref(n, *[INT] * self.generic[(m.name, n)]), {}))
                        else: u.check(u.closure((m.name, n)))
                    except (Invalid, RecursionError, KeyError): del m.types[n]; self.generic.pop((m.name, n), None); continue
                    break
                else: m.types[n] = type_def(INT)
                self.formals = []
            m.order = list(m.types) + list(m.vals)
            if r.random() < .6: r.shuffle(m.order)
        if r.random() < .6: r.shuffle(u.modules)
        u.drive = [(m.name, n) for m in self.mods for n in m.types if not m.types[n]["params"]]
        # imports of what does not exist in the end would be invalid
        for m in self.mods: m.imports = [i for i in m.imports if i["names"]]
        return u
    def visible(self, m):
        """(reference, home) of what may be referred to in m."""
        out = [(ref(n), (m.name, n)) for n in m.types]
        for i in m.imports:
            for n in i["names"]:
                if n[0] == "v": continue
                h = self.u.home(i["from"], n)
                out.append((ref(n), (h, n)))
            p = self.u.mods[i["from"]]
            for n in p.types:
                if self.r.random() < .3: out.append((ref(n, mod=p.name), (p.name, n)))
        return out
    def plain(self, m, depth, before, top=False):
        r = self.r; x = r.random()
        if self.formals and r.random() < .3:
            p = r.choice(self.formals); self.left.discard(p); return ref(p)
        if x < (.15 if top else .35):
            c = self.visible(m)
            if self.param and r.random() < .6: c = [v for v in c if v[1] in self.generic] or c
            if c:
                t, h = r.choice(c)
                if h in self.generic:
                    # an actual parameter: a reference, a leaf, sometimes another instantiation
                    return ref(t["n"], *[self.actual(m, depth) for _ in range(self.generic[h])], mod=t["mod"])
                return t
        t = Gen.plain(self, m, depth, 0, top)
        if self.compof and t["k"] in ("seq", "set") and r.random() < self.compof:
            k = self.u
            c = []
            for q, h in self.visible(m):
                if h in self.generic: continue
                try:
                    hh = k.top((m.name, q, {}))
                except (Invalid, RecursionError, KeyError): continue
                # X.680 leaves open what becomes of tags which were automatic where the components come from
                if hh["k"] == t["k"] and not (k.automatic(hh) and not k.automatic({"m": m.name, "a": t})): c.append(q)
            if c:
                for i, x in enumerate(t["c"]): x["n"] = "%s%d" % (r.choice("pqrstuvw"), i)
                at = r.randrange(len(t["c"]) + 1)
                if at <= t["root"]: t["root"] += 1
                t["c"].insert(at, components_of(r.choice(c)))
        return t
    def actual(self, m, depth):
        r = self.r
        if self.formals and r.random() < .3:
            p = r.choice(self.formals); self.left.discard(p); return ref(p)
        c = self.visible(m)
        if c and r.random() < .6:
            t, h = r.choice(c)
            if h not in self.generic: return t
            if depth < 3: return ref(t["n"], *[self.actual(m, depth + 1) for _ in range(self.generic[h])], mod=t["mod"])
        return r.choice(COMMON + [OID, REAL, string("VisibleString")])
    def default(self, m, t):
        r = self.r
        while t["k"] == "tag": t = t["t"]
        if t["k"] == "ref":
            try: h = self.u.top((m.name, t, {}))
            except (Invalid, KeyError, RecursionError): return None
            if h["k"] in ("enum", "bool", "real"): return Gen.default(self, m, h["a"])
            t = h["a"]
        if t["k"] in ("int", "str") and r.random() < .6 and t.get("u") != 3:
            c = []
            for n in list(m.vals) + [n for i in m.imports for n in i["names"] if n[0] == "v"]:
                v = self.u.mods[self.u.home(m.name, n, True)].vals[n]
                if v["t"]["k"] == t["k"] and v["t"].get("u") == t.get("u"): c.append(vname(n))
            if c: return r.choice(c)
        keep, m = m, Module("none"); return Gen.default(self, m, t)

class ConstGen:
    """Modules of value assignments and of collections with DEFAULTs."""
    WORDS = ["", "a", "abc", 'say "x"', '"', "it's", "back\\slash", "a\\", "x y  z", "--no comment", "/* nor this", "0123456789" * 7]
    def __init__(self, rng, name, nmods=2): self.r, self.name, self.nmods = rng, name, nmods
    def bases(self):
        r = self.r
        out = [INT, named_int(one=1, low=r.choice([-1, -300, -2147483648]), v0=r.choice([0, 77, 1 << 40]), high=r.choice([255, 65536, (1 << 63) - 1])),
               OCTETS, string(r.choice([s for s in STR if s not in ("OCTET STRING", "BIT STRING")])), OID, REAL, BOOL]
        for _ in range(2):
            n = r.randrange(1, 7); cut = r.choice([0, 0, r.randrange(0, n)]); used, items = set(), []
            for i in range(n):
                nm = r.choice(["e%d" % i, "v%d" % i])
                if (cut and i >= cut) or r.random() < .5: items.append(nm)
                else:
                    v = r.choice([x for x in (0, 1, 2, 3, 4, 7, 127, 128, 255, 256, 70000, -1, -129, 2147483647, -2147483648) if x not in used]); used.add(v); items.append((nm, v))
            out.append(dict(enum(*items), root=cut))
        return out
    def literal(self, a):
        r = self.r; k = a["k"]
        if k == "int":
            if a["nn"] and r.random() < .6: return vname(r.choice(a["nn"])["n"])
            return vint(r.choice([0, 1, -1, 127, 128, -128, -129, 2147483647, 2147483648, -2147483648, -2147483649, (1 << 63) - 1, -(1 << 63), r.getrandbits(63) - (1 << 62)]))
        if k == "enum": return vname(r.choice(a["items"])["n"])
        if k == "oid": return voi(*r.choice([[0, 0], [1, 39], [2, 5], [2, 39, 1], [1, 2, 840, 113549, 1, 1], [1, 3, 6, 1, 4, 1, 4294967295]]))
        if k == "real": return vreal(r.choice(["1.5", "0.1", "3.25", "123456.789", "1000000.5", "0.0", "2.0"]))
        if a["u"] == 4 and r.random() < .6:
            b = bytes(r.randrange(256) for _ in range(r.randrange(0, 6)))
            if r.random() < .4: return {"k": "str", "v": list(b), "txt": "'%s'B" % "".join("{:08b}".format(x) for x in b)}
            return vhex(b)
        w = r.choice(self.WORDS); return vstr(w)
    def unit(self):
        r = self.r; ms = []
        u = Unit(self.name, [], [])
        for k in range(self.nmods):
            m = Module("%s%s" % (self.name, "abc"[k]), r.choice(["EXPLICIT", "IMPLICIT", "AUTOMATIC"])); u.modules.append(m); u.mods[m.name] = m
            for p in u.modules[:-1]:
                names = [n for n in list(p.types) + list(p.vals) if n[0] != "S" and r.random() < .6 and all(n not in i["names"] for i in m.imports)]
                if names: m.imports.append({"from": p.name, "names": names})
            have = {n for i in m.imports for n in i["names"]}
            for j, b in enumerate(self.bases()):
                n = "T%d%s" % (j, "abc"[k]); m.types[n] = type_def(b)
                if r.random() < .4: m.types[n + "a"] = type_def(ref(n))
                if r.random() < .4: m.types[n + "t"] = type_def(tag(r.choice([3, 31, 200]), ref(n), r.choice([1, 2, 3]), r.choice(["", "I"])))
            types = [ref(n) for n in list(m.types) + sorted(have) if n[0] == "T"] + [INT, OCTETS, string("UTF8String"), OID, REAL]
            order = ["v%d" % j for j in range(8)] + ["w%d%s" % (j, "abc"[k]) for j in range(10)]
            r.shuffle(order)
            for n in order:
                if n in have: continue
                t = r.choice(types); h = u.top((m.name, t, {}))
                if h["k"] == "bool": continue
                m.vals[n] = value_def(t, self.value(u, m, h))
            cs = []
            for j in range(r.randrange(4, 12)):
                t = r.choice(types + [BOOL, r.choice(self.bases())]); h = u.top((m.name, t, {}))
                dv = vbool(r.random() < .5) if h["k"] == "bool" else self.value(u, m, h, True)
                cs.append(comp("c%d" % j, tag(j, t, 2, r.choice(["", "I"])) if m.tags != "EXPLICIT" or len(h["ids"]) < 2 else tag(j, t, 2, "I"), "d" if dv else "o", dv))
            m.types["S"] = type_def(r.choice([seq, set_])(*cs)); u.drive.append((m.name, "S"))
            try: u.check(u.closure((m.name, "S")))
            except Invalid: return self.unit()
            m.order = list(m.types) + list(m.vals)
            if r.random() < .7: r.shuffle(m.order)
        if r.random() < .5: r.shuffle(u.modules)
        return u
    def value(self, u, m, h, default=False):
        """A literal, or the name of a value of the same kind."""
        r = self.r; taken = {i["n"] for i in h["a"].get("items", [])} | {i["n"] for i in h["a"].get("nn", [])}
        c = []
        only = default and h["k"] == "oid"          # { ... } is not taken as a DEFAULT
        for n in list(m.vals) + [n for i in m.imports for n in i["names"] if n[0] in "vw"]:
            if n in taken: continue
            w = u.home(m.name, n, True); g = u.top((w, u.mods[w].vals[n]["t"], {}))
            if g["k"] == h["k"] and g["a"].get("u") == h["a"].get("u") and (h["k"] != "enum" or (g["m"], g["a"]["items"]) == (h["m"], h["a"]["items"]) and g["a"] is h["a"]): c.append(n)
        if c and (only or r.random() < .6): return vname(r.choice(c))
        return None if only else self.literal(h["a"])

def around_defaults(r, u, c):
    """Values of a collection: components left out, set to their default, to something like it, to anything."""
    h = u.top(c); cs = u.comps(h); out = []
    for x in cs:
        z = r.random()
        if x["p"] != "d": out.append([u.value(r, x["t"], 3)] if x["p"] == "m" or r.random() < .5 else []); continue
        d = u.denotes(x["t"][0], x["t"], x["dv"]); k = u.top(x["t"])["k"]
        if z < .3: out.append([])
        elif z < .55: out.append([d])
        elif z < .8 and k in ("int",): out.append([octets(((from_octets(d) + r.choice([1, -1, 256, 1 << 32]) + (1 << 63)) % (1 << 64)) - (1 << 63))])
        elif z < .8 and k == "str": out.append([r.choice([d + [0], d[:-1], d + d, [x ^ 32 for x in d]])])
        elif z < .8 and k == "bool": out.append([not d])
        else: out.append([u.value(r, x["t"], 3)])
    return out
