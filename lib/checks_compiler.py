"""C01, C04, C06: the ASN.1 compiler as a program (Legal.tla, Notation.tla, MC_Legal.tla, TraceCompiler.tla, ...)."""
import itertools, random
from core import *
from rig import build_compiler, Rig
import schema as S
from schema import *
from gen_schema import *
from copy import deepcopy

# ---- running the compiler ----
SANENV = dict(ASAN_OPTIONS="detect_leaks=0:exitcode=99:abort_on_error=0:detect_stack_use_after_return=1:max_allocation_size_mb=4096",
              UBSAN_OPTIONS="halt_on_error=1:exitcode=99:print_stacktrace=1")

def outcome(ctx, exe, d, files, out="g", limit=40):
    """Compiles texts (bytes) in the scratch directory d. Returns rc, crash, diag, made and the outputs."""
    os.makedirs(d, exist_ok=True)
    names = []
    for k, b in enumerate(files):
        n = "f%d.asn" % k; open(os.path.join(d, n), "wb").write(b); names.append(n)
    rc, o, e = run([exe] + names + [out], limit, cwd=d, env=dict(os.environ, **SANENV))
    crash = ""
    if rc == -999: crash = "did not terminate"
    elif rc not in (0, 255) or "ERROR: AddressSanitizer" in e or "runtime error:" in e: crash = ctx._why(rc, e)
    diag = any(l.strip() and "WARNING" not in l and "Warning" not in l for l in e.splitlines())
    outs = []
    for x in (".hpp", ".fwd.hpp", ".detail.hpp"):
        f = os.path.join(d, out + x); outs.append(open(f, "rb").read() if os.path.exists(f) else b"")
    shutil.rmtree(d, ignore_errors=True)
    return {"rc": rc, "crash": crash, "diag": diag, "made": all(outs)}, outs

def chars(b):
    """A text for Notation: printable characters and white space as they are, others by name."""
    return [chr(x) if 32 <= x < 127 or x in (9, 10, 12, 13) else {11: "VT", 0: "NUL"}.get(x, "EOT" if x < 32 else "HIGH") for x in b]

# ---- modules as lists of definitions ----
class Listed:
    def __init__(self, name, header, imports, defs): self.name, self.header, self.imports, self.defs = name, header, imports, defs
    @staticmethod
    def of(m):
        ds = []
        for n in m.order:
            if n in m.types: ds.append({"n": n, "k": "type", "params": list(m.types[n]["params"]), "t": m.types[n]["t"], "v": {"k": "none"}})
            else: ds.append({"n": n, "k": "value", "params": [], "t": m.vals[n]["t"], "v": m.vals[n]["v"]})
        return Listed(m.name, m.header, [{"from": i["from"], "names": [{"n": x, "k": "value" if x[0].islower() else "type"} for x in i["names"]]} for i in m.imports], ds)
    def text(self):
        o = ["%s DEFINITIONS %s::= BEGIN" % (self.name, self.header)]
        if self.imports: o.append("IMPORTS " + " ".join("%s FROM %s" % (", ".join(x["n"] for x in i["names"]), i["from"]) for i in self.imports if i["names"]) + ";")
        for d in self.defs:
            if d["k"] == "type": o.append("%s%s ::= %s" % (d["n"], " {%s}" % ", ".join(d["params"]) if d["params"] else "", S.text(d["t"])))
            else: o.append("%s %s ::= %s" % (d["n"], S.text(d["t"]), d["v"]["txt"]))
        return "\n".join(o + ["END", ""])
    def ast(self):
        return {"name": self.name, "imports": self.imports,
                "defs": [{"n": d["n"], "k": d["k"], "params": d["params"], "t": slim(d["t"]), "v": slim_value(d["v"])} for d in self.defs]}

def slim_value(v): return {"k": "name", "n": v["n"]} if v["k"] == "name" else {"k": "none"}
def slim(a):
    """What Legal looks at in a type expression."""
    k = a["k"]
    if k in ("seq", "set", "choice"): return {"k": k, "c": [{"t": slim(c["t"]), "dv": slim_value(c["dv"])} for c in a["c"]]}
    if k in ("of", "tag"): return {"k": k, "t": slim(a["t"])}
    if k == "ref": return {"k": k, "mod": a["mod"], "n": a["n"], "args": [slim(x) for x in a["args"]]}
    if k == "enum": return {"k": k, "items": [{"n": x["n"]} for x in a["items"]]}
    if k == "int": return {"k": k, "nn": [{"n": x["n"]} for x in a["nn"]]}
    return {"k": k}

def refs(a):
    """All references in a type expression, and the places DEFAULTs are named."""
    out = []
    if isinstance(a, dict):
        if a.get("k") == "ref": out.append(a)
        for k, v in a.items():
            if k != "txt": out += refs(v)
    elif isinstance(a, list):
        for v in a: out += refs(v)
    return out
def named_values(a):
    out = []
    if isinstance(a, dict):
        if a.get("k") == "name": out.append(a)
        for v in a.values(): out += named_values(v)
    elif isinstance(a, list):
        for v in a: out += named_values(v)
    return out

def edit(r, ms):
    """Changes modules in one place. Returns whether what else X.680 asks for still holds."""
    k = r.choice(["none", "order", "dup", "dup", "delete", "delete", "deref", "deref", "dename", "unimport", "missing-import", "import", "reimport", "external", "dupmodule", "dropmodule", "move"])
    m = r.choice(ms); d = r.choice(m.defs) if m.defs else None
    if k == "none" or d is None: return True
    if k == "order":
        for x in ms: r.shuffle(x.defs); r.shuffle(x.imports)
        r.shuffle(ms); return True
    if k == "dup":
        e = deepcopy(d)
        if r.random() < .5:
            o = r.choice([x for x in m.defs if x["k"] == d["k"]]); e.update(t=deepcopy(o["t"]), v=deepcopy(o["v"]), params=list(o["params"]))
        m.defs.insert(r.randrange(len(m.defs) + 1), e); return True
    if k == "delete": m.defs.remove(d); return True
    if k == "deref":
        rs = refs([x["t"] for x in m.defs])
        if rs:
            a = r.choice(rs); a["n"] = r.choice(["Nowhere", "T9", a["n"] + "x", r.choice(m.defs)["n"].capitalize(), "P0", "T0"])
        return False
    if k == "dename":
        vs = named_values([[x["t"], x["v"]] for x in m.defs])
        if vs:
            a = r.choice(vs); a["n"] = a["txt"] = r.choice(["nowhere", "v9", a["n"] + "x", "e0", "v0"])
        return False
    if k == "unimport":
        i = [x for x in m.imports if x["names"]]
        if i: x = r.choice(i); x["names"].remove(r.choice(x["names"])); m.imports = [y for y in m.imports if y["names"]]
        return True
    if k == "missing-import":
        x = r.choice([{"n": "Nowhere", "k": "type"}, {"n": "nowhere", "k": "value"}, {"n": "T9", "k": "type"}, {"n": "v9", "k": "value"}])
        if m.imports and r.random() < .6: r.choice(m.imports)["names"].insert(0, x)
        else: m.imports.append({"from": r.choice([y.name for y in ms] + ["Nowhere"]), "names": [x]})
        return True
    if k == "import":
        o = r.choice(ms); c = [x for x in o.defs]
        if c and o is not m: x = r.choice(c); m.imports.append({"from": o.name, "names": [{"n": x["n"], "k": x["k"]}]})
        return True
    if k == "reimport":
        if m.imports: r.choice(m.imports)["from"] = r.choice([y.name for y in ms] + ["Nowhere"])
        return False
    if k == "external":
        rs = refs([x["t"] for x in m.defs])
        if rs: r.choice(rs)["mod"] = r.choice([y.name for y in ms] + ["Nowhere"])
        return False
    if k == "dupmodule":
        e = deepcopy(m); ms.insert(r.randrange(len(ms) + 1), e)
        if r.random() < .5: e.defs = e.defs[:1]
        return False
    if k == "dropmodule":
        if len(ms) > 1: ms.remove(m)
        return True
    if k == "move":
        o = r.choice(ms); m.defs.remove(d); o.defs.append(d); return False
    return False

def base_units(ctx, n, sound=True):
    r, out = ctx.rng, []
    for k in range(n):
        x = k % 5
        if x == 0: g = ConstGen(r, "K%d" % k)
        elif x == 1: g = MultiGen(r, "M%d" % k, nmods=r.choice([2, 3, 4]), depth=2, width=3, param=.4, compof=.3)
        elif x == 2: g = MultiGen(r, "M%d" % k, nmods=3, depth=3, width=3)
        elif x == 3: g = Gen(r, "R%d" % k, tags=r.choice(["EXPLICIT", "IMPLICIT", "AUTOMATIC"]))
        else: g = MultiGen(r, "M%d" % k, nmods=2, depth=2, width=2, param=.3)
        out.append(g.unit())
    return out

def state_modules(st):
    """The modules of a state of MC_Legal."""
    out = []
    for m in st:
        ds = []
        for d in m["defs"]:
            v = d["v"]
            if v["k"] == "name": v = dict(v, txt=v["n"])
            elif v["k"] == "int": v = dict(v, txt=str(from_octets(v["v"])))
            ds.append(dict(d, t=from_spec(d["t"], {x: x for x in "ABZ"}), v=v))
        out.append(Listed(m["name"], "IMPLICIT TAGS ", m["imports"], ds))
    return out

# ---- texts ----
EXOTIC = [
"""Exotic { iso(1) 2 three(3) } DEFINITIONS AUTOMATIC TAGS EXTENSIBILITY IMPLIED ::= BEGIN
EXPORTS ALL;
Bits ::= BIT STRING { one(1), two(2) } (SIZE (1..8))
Str ::= IA5String (FROM ("a".."z")) (SIZE (1..max | 100, ...))
max INTEGER ::= 16
Sized ::= SEQUENCE SIZE (0..max) OF x INTEGER (0..255)
Bag ::= SET (SIZE (2)) OF OCTET STRING (CONTAINING Sized)
Pick ::= CHOICE { a [0] BOOLEAN, ..., b NULL }
Row ::= SEQUENCE { a INTEGER (MIN..MAX) OPTIONAL, ..., b UTF8String DEFAULT "x ""y"" z", ..., c BOOLEAN DEFAULT TRUE }
Enu ::= ENUMERATED { red, green(5), ..., blue }
oid OBJECT IDENTIFIER ::= { iso(1) member-body(2) 840 }
hex OCTET STRING ::= '0AFF'H
bin OCTET STRING ::= '0101'B
Emb ::= SEQUENCE { a CHARACTER STRING, b EXTERNAL, c GeneralizedTime, d UTCTime, e ObjectDescriptor } -- end --
END
""",
"""Classes DEFINITIONS IMPLICIT TAGS ::= BEGIN
EXPORTS A, b;
C ::= CLASS { &id INTEGER UNIQUE, &Type OPTIONAL, &value BOOLEAN DEFAULT TRUE } WITH SYNTAX { ID &id [TYPE &Type] }
A ::= SEQUENCE { id C.&id, type C.&Type OPTIONAL }
b INTEGER ::= -5
P { INTEGER:low, T } ::= SEQUENCE { x T, y INTEGER (low..10) }
Q ::= P { 5, BOOLEAN }
END
""",
"""Plain DEFINITIONS ::= BEGIN
IMPORTS T, v FROM Other { 1 2 3 } ;
T2 ::= [APPLICATION 3] EXPLICIT T (SIZE(v))
T3 ::= [PRIVATE 4] IMPLICIT SEQUENCE { COMPONENTS OF T4, n ENUMERATED { a, b } DEFAULT b }
T4 ::= SEQUENCE { a INTEGER { one(1), two(2) } DEFAULT two, r REAL DEFAULT 1.5 }
T5 ::= CHOICE { a T4, b [1] SET OF T3 }
w T4 ::= { a 5, r 2.5 }
END
Other DEFINITIONS ::= BEGIN
T ::= OCTET STRING
v INTEGER ::= 4
END
""",
"""Ops DEFINITIONS ::= BEGIN
OPER ::= CLASS { &ArgumentType OPTIONAL, &Errors ERR OPTIONAL, &code INTEGER UNIQUE }
ERR ::= CLASS { &ParameterType OPTIONAL, &c Code }
Code ::= CHOICE { local INTEGER, global OBJECT IDENTIFIER }
SetOf OPER ::= { op1 | op2, ... }
Any1 ::= SEQUENCE { code OPER.&code, any ANY DEFINED BY code }
Tab ::= SEQUENCE { a INSTANCE OF TYPE-IDENTIFIER, b TYPE-IDENTIFIER.&id }
Con ::= INTEGER (CONSTRAINED BY { -- nothing -- })
Sel ::= SEQUENCE { x local < Code }
END
"""]
TOKEN = re.compile(r'--.*?(?:--|\n|$)|/\*.*?\*/|"(?:[^"]|"")*"|\'[0-9A-F]*\'[BH]|&?[A-Za-z](?:-?[A-Za-z0-9])*|-?\d+(?:\.\d+)?|::=|\.\.\.|\.\.|\s+|.', re.S)
def tokens(t): return [x for x in TOKEN.findall(t) if not x.isspace()]
POOL = ["{", "}", "(", ")", "[", "]", "::=", ",", ";", ".", "..", "...", ":", "|", "!", "<", "^", "@", "-", "--", "/*", "*/", "\"", "'", "'01'B", "'0AF'H", "'G'H", "\"a\"", "0", "5", "-7", "1.5",
        "999999999999999999999999", "T0", "T", "x", "v0", "A", "&x", "&T", "BEGIN", "END", "DEFINITIONS", "IMPORTS", "EXPORTS", "FROM", "SEQUENCE", "SET", "OF", "CHOICE", "ENUMERATED", "INTEGER",
        "BOOLEAN", "NULL", "OCTET", "BIT", "STRING", "OBJECT", "IDENTIFIER", "REAL", "OPTIONAL", "DEFAULT", "COMPONENTS", "TRUE", "FALSE", "CLASS", "SIZE", "WITH", "UNIVERSAL", "APPLICATION", "IMPLICIT",
        "EXPLICIT", "TAGS", "AUTOMATIC", "ANY", "DEFINED", "BY", "ALL", "MIN", "MAX", "UTCTime", "INSTANCE", "TYPE-IDENTIFIER", "CONTAINING", "PRESENT", "PATTERN", "$", "#", "?", "_", "\\", "\0", "\x80", "\r", "\xff", "*", "/", "="]
def garble(r, t):
    """A damaged text."""
    k = r.choice(["del", "del", "dup", "swap", "repl", "repl", "ins", "ins", "cut", "char", "char", "junk", "tok2"])
    if k in ("del", "dup", "swap", "repl", "ins", "tok2"):
        ts = tokens(t)
        if not ts: return t
        for _ in range(2 if k == "tok2" else 1):
            i = r.randrange(len(ts)); kk = r.choice(["del", "repl", "ins"]) if k == "tok2" else k
            if kk == "del": del ts[i]
            elif kk == "dup": ts.insert(i, ts[i])
            elif kk == "swap" and i: ts[i - 1], ts[i] = ts[i], ts[i - 1]
            elif kk == "repl": ts[i] = r.choice(POOL if r.random() < .6 else ts)
            elif kk == "ins": ts.insert(i, r.choice(POOL if r.random() < .7 else ts))
            if not ts: break
        return "".join(x + (" " if not x.startswith("--") else "\n") for x in ts)
    if k == "cut":
        i = r.randrange(len(t)); return r.choice([t[:i], t[i:]])
    if k == "char":
        i = r.randrange(len(t)); c = chr(r.choice([r.randrange(256), r.randrange(32, 127)]))
        return r.choice([t[:i] + t[i + 1:], t[:i] + c + t[i:], t[:i] + c + t[i + 1:]])
    i = r.randrange(len(t)); return t[:i] + "".join(chr(r.randrange(256)) for _ in range(r.randrange(1, 20))) + t[i:]

GAPS = [" ", "\n", "\t", "\r\n", "  ", " \n\n ", "--c--", "-- a comment -- ", "--x\n", "-- END ::= { \" ' \n", "/* END */", "/* \n ** \" -- / * */", "\f", "----", "-- - -\n", "--a-b--", "/**/", "/***/"]
def layout(r, t, dense=.4):
    """The same lexical items in another layout."""
    out, prev = [], ""
    for x in tokens(t):
        if x.startswith("--") or x.startswith("/*"): continue
        word = lambda c: c.isalnum() or c in "_-&'\"."
        need = prev and (word(prev[-1]) and word(x[0]) or prev[-1] in ":.-/" or x[0] in ":=.-/[]")
        g = "".join(r.choice(GAPS) for _ in range(r.choice([0, 0, 1, 1, 2, 4])))
        if need and not g: g = r.choice([" ", "\n", "/**/", "\t"])
        # a comment may not begin or end within what is next to it
        if g and ((prev and (prev[-1] in "-/*" or prev[0] == "'")) or x[0] in "-/*"): g = " " + g + " "
        if g.endswith("-") and not g.endswith("--"): g += " "
        out += [g, x]; prev = x
    return "".join(out) + r.choice(["", "\n", " -- the end", "/* x */\n"])

LARGE = [
 ("nesting", lambda n: "Big DEFINITIONS AUTOMATIC TAGS ::= BEGIN\nT ::= " + "SEQUENCE { a " * n + "INTEGER" + " }" * n + "\nEND\n"),
 ("lists", lambda n: "Big DEFINITIONS AUTOMATIC TAGS ::= BEGIN\nT ::= " + "SEQUENCE OF " * n + "INTEGER\nEND\n"),
 ("components", lambda n: "Big DEFINITIONS AUTOMATIC TAGS ::= BEGIN\nT ::= SEQUENCE { " + ", ".join("a%d INTEGER" % k for k in range(n)) + " }\nEND\n"),
 ("enumerators", lambda n: "Big DEFINITIONS AUTOMATIC TAGS ::= BEGIN\nT ::= ENUMERATED { " + ", ".join("a%d" % k for k in range(n)) + " }\nEND\n"),
 ("identifier", lambda n: "Big DEFINITIONS AUTOMATIC TAGS ::= BEGIN\nT%s ::= INTEGER\nEND\n" % ("x" * (20 * n))),
 ("string", lambda n: "Big DEFINITIONS AUTOMATIC TAGS ::= BEGIN\nt UTF8String ::= \"%s\"\nEND\n" % ("\"\"x" * (20 * n))),
 ("comment", lambda n: "Big DEFINITIONS AUTOMATIC TAGS ::= BEGIN /* %s */ T ::= INTEGER -- %s\nEND\n" % ("* / - " * (20 * n), "- x" * (20 * n))),
 ("chain", lambda n: "Big DEFINITIONS AUTOMATIC TAGS ::= BEGIN\n" + "\n".join("T%d ::= SEQUENCE { a T%d OPTIONAL }" % (k, k + 1) for k in range(n)) + "\nT%d ::= INTEGER\nEND\n" % n),
 ("aliases", lambda n: "Big DEFINITIONS AUTOMATIC TAGS ::= BEGIN\n" + "\n".join("T%d ::= T%d" % (k, k + 1) for k in range(n)) + "\nT%d ::= INTEGER\nEND\n" % n),
 ("loop", lambda n: "Big DEFINITIONS AUTOMATIC TAGS ::= BEGIN\n" + "\n".join("T%d ::= T%d" % (k, (k + 1) % n) for k in range(n)) + "\nEND\n"),
 ("arcs", lambda n: "Big DEFINITIONS AUTOMATIC TAGS ::= BEGIN\no OBJECT IDENTIFIER ::= { 1 2 %s }\nEND\n" % " ".join(str(k) for k in range(n))),
 ("open", lambda n: "Big DEFINITIONS AUTOMATIC TAGS ::= BEGIN\nT ::= " + "SEQUENCE { a " * n),
 ("braces", lambda n: "Big DEFINITIONS AUTOMATIC TAGS ::= BEGIN\nt INTEGER ::= " + "{ " * n + "5" + " }" * n + "\nEND\n"),
]

def c04(ctx):
    r = ctx.rng
    exe = build_compiler(ctx, san=True)
    ctx.log("compiler built")
    jobs = []          # (key, files, event without outcome, other layout)
    def ast_job(ms, sound, key):
        texts = [m.text().encode("latin1") for m in ms]
        files = texts if r.random() < .6 else [b"".join(texts)]
        jobs.append((key, files, {"op": "a", "ms": [m.ast() for m in ms], "sound": sound}, None))
    # what the model of names reaches
    rows = [st for pick, st in dump_pairs(ctx, "MC_Legal", "MC_Legal.cfg", ("pick", "ms")) if st]
    for st in (r.sample(rows, 1300) if ctx.quick else rows):
        ms = state_modules(st)
        if r.random() < .5:
            for m in ms: r.shuffle(m.defs)
        if r.random() < .5: ms.reverse()
        ast_job(ms, True, "names")
    # random modules, right and with one or more faults
    units = base_units(ctx, 30 if ctx.quick else 300)
    for u in units:
        ms0 = [Listed.of(m) for m in u.modules]
        ast_job(ms0, True, "unit")
        for _ in range(12 if ctx.quick else 40):
            ms = deepcopy(ms0); sound = True
            for _ in range(r.choice([1, 1, 1, 2, 3])): sound = edit(r, ms) and sound
            ast_job(ms, sound, "edited unit")
    # damaged texts
    texts = [u.modules[k].text() for u in units for k in range(len(u.modules))]
    texts = EXOTIC + [t for t in texts if len(t) < 2500]
    for t in EXOTIC: jobs.append(("text", [t.encode()], {"op": "x"}, None))
    for _ in range(900 if ctx.quick else 12000):
        t = r.choice(EXOTIC if r.random() < .35 else texts)
        for _ in range(r.choice([1, 1, 1, 2])): t = garble(r, t) or "x"
        fs = [t.encode("latin1", "replace")]
        if r.random() < .25:
            fs += [x.encode("latin1") for x in r.sample(texts[len(EXOTIC):], r.choice([1, 2]))]; r.shuffle(fs)
        jobs.append(("damaged text", fs, {"op": "x"}, None))
    for t in EXOTIC[:3] + r.sample(texts, 3):
        ts = tokens(t)
        cuts = range(len(ts)) if not ctx.quick else sorted(r.sample(range(len(ts)), min(len(ts), 30)))
        for n in cuts: jobs.append(("truncated text", [" ".join(ts[:n]).encode()], {"op": "x"}, None))
    for n in range(40 if ctx.quick else 400):
        jobs.append(("random text", [bytes(r.randrange(256) for _ in range(r.randrange(0, 60)))], {"op": "x"}, None))
        jobs.append(("random items", [" ".join(r.choice(POOL) for _ in range(r.randrange(1, 40))).encode("latin1")], {"op": "x"}, None))
    for name, f in LARGE:
        for n in ((30, 120) if ctx.quick else (30, 120, 300)): jobs.append(("large " + name, [f(n).encode()], {"op": "x", "files": []}, None))
    # other layouts of the same items
    small = [t for t in texts[len(EXOTIC):] if "IMPORTS" not in t] + [EXOTIC[2]]
    for _ in range(60 if ctx.quick else 800):
        t = r.choice(small); jobs.append(("layout", [t.encode("latin1")], {"op": "l"}, layout(r, t).encode("latin1")))
    ctx.log("%d compilations" % len(jobs))
    def one(n):
        key, files, ev, other = jobs[n]
        d = ctx.path("c%d" % n)
        res, outs = outcome(ctx, exe, d, files)
        ev = dict(ev, n=n, **res)
        if ev["op"] == "x" and "files" not in ev: ev["files"] = [chars(f) for f in files]
        if other is not None:
            res2, outs2 = outcome(ctx, exe, d, [other])
            ev.update(text=chars(files[0]), other=chars(other), same=outs == outs2, rc=res2["rc"], made=res2["made"], crash=res["crash"] or res2["crash"])
            if res["rc"] != 0: ev = None           # not a schema this compiler takes
        return ev
    with ThreadPoolExecutor(8) as ex: events = [e for e in ex.map(one, range(len(jobs))) if e]
    ctx.commands += len(jobs)
    ctx.log("compiled; judging")
    for e in events:
        ctx.add(e["op"] + (" refused" if e["rc"] else " accepted"))
    bad = ctx.judge("TraceCompiler", events)
    by = {e["n"]: e for e in events}
    ctx.sample([{"what": jobs[e["n"]][0], "files": [f.decode("latin1")[:800] for f in jobs[e["n"]][1]], "rc": e["rc"], "diag": e["diag"]} for e in events if sum(map(len, jobs[e["n"]][1])) < 900])
    for n, why in sorted(bad.items()):
        key, files, ev, other = jobs[n]
        text = [f.decode("latin1") for f in files] + ([other.decode("latin1")] if other else [])
        if "not a layout" in why: raise Infra("a layout with other items: %r" % text)
        ctx.reject("%s: %s" % (key, "\n=====\n".join(text)), "expected %s %s" % (why, by[n]["crash"]), {"files": text, "outcome": {k: by[n][k] for k in ("rc", "crash", "diag", "made")}, "expected": why})

# ---- C06 ----
SHIM = r"""
#define _GNU_SOURCE
#include <stdlib.h>
#include <sys/time.h>
#include <sys/types.h>
#include <time.h>
#include <dlfcn.h>
#include <string.h>
#include <unistd.h>
static long shift(void) { const char* s = getenv("FB_SHIFT"); return s ? atol(s) : 0; }
int clock_gettime(clockid_t c, struct timespec* t) { int (*f)(clockid_t, struct timespec*) = dlsym(RTLD_NEXT, "clock_gettime"); int r = f(c, t); t->tv_sec += shift(); return r; }
int gettimeofday(struct timeval* t, void* z) { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
time_t time(time_t* p) { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); if (p) *p = s.tv_sec; return s.tv_sec; }
pid_t getpid(void) { return 1000 + (pid_t)(shift() % 9000); }
int gethostname(char* b, size_t n) { strncpy(b, shift() ? "elsewhere" : "here", n); return 0; }
"""

class Setting:
    """What a compilation must not depend on."""
    def __init__(self, r, plain=False):
        self.env = {"PATH": os.environ.get("PATH", ""), "HOME": "/root", "LANG": "C.UTF-8"}
        self.exe, self.style, self.pre = 0, "relative", []
        if plain: return
        if r.random() < .4: self.env = dict(self.env, FB_SHIFT=str(r.choice([1, 3600, 86400 * 400, 86400 * 9000, r.randrange(10 ** 8)])))
        if r.random() < .4: self.env = dict(self.env, TZ=r.choice(["UTC", "Asia/Tokyo", "Fixed/UTC-11:00:00"]), LANG=r.choice(["C", "POSIX", "en_US.UTF-8", "de_DE.UTF-8"]), LC_ALL=r.choice(["C", "C.UTF-8", "tr_TR.UTF-8"]), HOME="/", USER="someone", HOSTNAME="elsewhere", DEBUG="1", SOURCE_DATE_EPOCH="1")
        if r.random() < .4: self.env["PADDING"] = "x" * r.choice([1, 17, 1000, 100000])
        if r.random() < .4: self.env["MALLOC_PERTURB_"] = str(r.randrange(1, 256))
        if r.random() < .3: self.env.update(MALLOC_ARENA_MAX="1", MALLOC_MMAP_THRESHOLD_="256", MALLOC_TOP_PAD_="0")
        if r.random() < .2: self.env = {}
        self.exe = r.randrange(3)
        self.style = r.choice(["relative", "absolute", "elsewhere", "dotted"])
        if r.random() < .2: self.pre = ["setarch", "-R"]
    def note(self): return {"env": {k: (v if len(v) < 40 else "%d characters" % len(v)) for k, v in self.env.items()}, "build": self.exe, "paths": self.style, "prefix": self.pre}

class Runs:
    """A directory with schemas, and runs of the compiler in it."""
    def __init__(self, ctx, builds, shim): self.ctx, self.builds, self.shim = ctx, builds, shim
    def snapshot(self, d):
        out = {}
        for p, ds, fs in os.walk(d):
            for f in fs:
                q = os.path.join(p, f); out[os.path.relpath(q, d)] = hashlib.sha1(open(q, "rb").read()).hexdigest()[:16]
        return out
    def files(self, snap, outs):
        """Outputs (three files each) and other files as one record each."""
        got, res = set(), []
        for o in outs:
            parts = [o + x for x in (".hpp", ".fwd.hpp", ".detail.hpp")]
            if all(p in snap for p in parts): res.append({"f": o, "d": ["-".join(snap[p] for p in parts)]})
            elif any(p in snap for p in parts): res.append({"f": o, "d": ["incomplete"]})
            got |= set(parts)
        return res + [{"f": "=" + p, "d": [h]} for p, h in sorted(snap.items()) if p not in got]
    def command(self, d, files, out, st):
        cwd, prefix = d, ""
        if st.style == "absolute": prefix = d + "/"
        elif st.style == "elsewhere": cwd, prefix = "/", d[1:] + "/"
        elif st.style == "dotted": prefix = "./sub/../"
        env = dict(st.env)
        if "FB_SHIFT" in env: env["LD_PRELOAD"] = self.shim
        return st.pre + [self.builds[st.exe]] + [prefix + f for f in files] + [prefix + out], cwd, env
    def session(self, texts, steps, settings, outs):
        """texts: name -> bytes. steps: each a list of (names of texts, output), run at once. Gives one event for each step."""
        d = tempfile.mkdtemp(prefix="c06-", dir=self.ctx.work); os.makedirs(d + "/sub")
        for n, b in texts.items(): open(os.path.join(d, n), "wb").write(b)
        events, snap = [], self.snapshot(d)
        for k, step in enumerate(steps):
            before, procs = snap, []
            for j, (files, out) in enumerate(step):
                cmd, cwd, env = self.command(d, files, out, settings[k][j])
                procs.append(subprocess.Popen(cmd, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, start_new_session=True))
            crash, rcs = "", []
            for p in procs:
                try: e = p.communicate(timeout=60)[1].decode("latin1")
                except subprocess.TimeoutExpired: os.killpg(p.pid, signal.SIGKILL); p.communicate(); e = ""; crash = "did not terminate"
                rcs.append(p.returncode)
                if p.returncode not in (0, 255) and not crash: crash = self.ctx._why(p.returncode, e)
            snap = self.snapshot(d)
            after = self.files(snap, outs)
            at = {x["f"]: x["d"] for x in after}
            runs = []
            for (files, out), rc in zip(step, rcs):
                key = [hashlib.sha1(b"".join(b"%d:" % len(texts[f]) + texts[f] for f in files)).hexdigest()[:16], os.path.basename(out)]
                runs.append({"key": key, "out": out, "gave": ["refusal"] if rc else at.get(out, ["nothing"])})
            events.append({"op": "runs", "fresh": k == 0, "before": self.files(before, outs) if k == 0 else [], "runs": runs, "after": after, "crash": crash})
        shutil.rmtree(d, ignore_errors=True)
        return events

def c06(ctx):
    r = ctx.rng
    # three builds: as it is, and with what is not initialized set to either pattern
    def shim():
        c, so = ctx.path("shim.c"), ctx.path("shim.so"); open(c, "w").write(SHIM)
        rc, o, e = run(["gcc", "-shared", "-fPIC", "-w", c, "-o", so, "-ldl"], 60)
        if rc != 0: raise Infra("shim: " + e)
        return so
    def model(): return dump_pairs(ctx, "MC_Runs", "MC_Runs.cfg", ("hist",))
    with ThreadPoolExecutor(4) as ex:
        m = ex.submit(model)
        bs = [ex.submit(build_compiler, ctx, opt=o, name=n) for o, n in (("-O0", "asnc0"), (["-O0", "-ftrivial-auto-var-init=pattern"], "asnc1"), (["-O0", "-ftrivial-auto-var-init=zero"], "asnc2"))]
        so = shim()
        builds = [b.result() for b in bs]
        hists = list({json.dumps(h): h for (h,) in m.result()}.values())
    ctx.log("compilers built; %d histories" % len(hists))
    rig = Runs(ctx, builds, so)
    jobs = []       # (texts, steps, outputs)
    units = base_units(ctx, 24 if ctx.quick else 200)
    lists = [[(m.name + ".asn", m.text().encode("latin1")) for m in u.modules] for u in units]
    # histories of the model: a large and a small schema, and one which is refused late or early
    bads = [lambda t: t[:len(t) // 2], lambda t: t.replace(b"END", b"Zz ::= Nowhere END"), lambda t: b"", lambda t: t + t]
    flat = [l[0] for u, l in zip(units, lists) if len(u.modules) == 1]
    for h in (r.sample(hists, 260) if ctx.quick else hists):
        a, b = r.sample(flat, 2)
        texts = {"a.asn": a[1], "b.asn": b[1], "bad.asn": r.choice(bads)(r.choice([a[1], b[1]]))}
        inp = {"A": ["a.asn"], "B": ["b.asn"], "AB": ["a.asn", "b.asn"], "BA": ["b.asn", "a.asn"], "Bad": r.choice([["bad.asn"], ["b.asn", "bad.asn"], ["nothing.asn"]])}
        texts["nothing.asn"] = b"Nothing"
        steps = [[(inp[x["in"]], x["out"].replace("-", "/")) for x in s] for s in h]
        jobs.append((texts, steps, ["x", "y", "sub/x"]))
    # each unit again and again
    for l in lists:
        texts = dict(l); names = [n for n, _ in l]
        orders = [names] + [r.sample(names, len(names)) for _ in range(1 if len(names) > 1 else 0)]
        texts["other.asn"] = r.choice(flat)[1]; texts["bad.asn"] = texts[names[0]] + b"\nT ::="
        steps = []
        for k in range(14 if ctx.quick else 40):
            o = r.choice(orders); step = [(o, r.choice(["g", "sub/g"]))]
            if r.random() < .3: step.append((r.choice([["other.asn"], ["bad.asn"], o]), "h"))
            if r.random() < .15: step = [(["bad.asn"], "g")]
            steps.append(step)
        jobs.append((texts, steps, ["g", "sub/g", "h"]))
    # the schemas of the repository
    shipped = [os.path.join(REPO, "testfiles", f) for f in sorted(os.listdir(os.path.join(REPO, "testfiles"))) if f.endswith(".asn")] if os.path.isdir(os.path.join(REPO, "testfiles")) else []
    for f in shipped:
        jobs.append(({"a.asn": open(f, "rb").read()}, [[(["a.asn"], r.choice(["g", "sub/g"]))] for _ in range(6)], ["g", "sub/g"]))
    def one(job):
        texts, steps, outs = job
        rr = random.Random("%s-%s" % (ctx.seed, json.dumps([steps, sorted(hashlib.sha1(t).hexdigest() for t in texts.values())])))
        st = [[Setting(rr, plain=k == 0 and rr.random() < .3) for _ in s] for k, s in enumerate(steps)]
        return st, rig.session(texts, steps, st, outs)
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(one, jobs))
    events, where = [], []
    for job, (st, evs) in zip(jobs, res):
        for k, e in enumerate(evs):
            e["n"] = len(events); events.append(e); where.append((job, st, k))
    nruns = sum(len(e["runs"]) for e in events)
    ctx.commands += nruns; ctx.add("runs", nruns); ctx.add("keys", len({tuple(x["key"]) for e in events for x in e["runs"]}))
    ctx.add("refused", sum(x["gave"] == ["refusal"] for e in events for x in e["runs"]))
    ctx.log("%d runs in %d steps; judging" % (nruns, len(events)))
    bad = judge_runs(ctx, events)
    ctx.sample([{"steps": where[e["n"]][0][1][:3], "event": e} for e in events if len(str(e)) < 1500])
    for n, why in sorted(bad.items()):
        (texts, steps, outs), st, k = where[n]
        text = {f: t.decode("latin1") for f, t in texts.items()}
        ctx.reject("%s after %s: %s" % (steps[k], steps[:k], "\n=====\n".join(text[f] for s in steps[k] for f in s[0])), "expected %s %s" % (why, events[n]["crash"]),
                   {"files": text, "steps": steps[:k + 1], "settings": [[x.note() for x in s] for s in st[:k + 1]], "expected": why, "event": events[n]})

def judge_runs(ctx, events):
    """One walk over all steps: what a compilation gave is remembered throughout."""
    tf = ctx.path("runs.ndjson")
    with open(tf, "w") as f:
        for e in events: f.write(json.dumps(e, separators=(",", ":")) + "\n")
    t = ctx.tlc("TraceRuns", "Trace.cfg", env={"TRACE": tf}, workers=1)
    if not t["ok"] or t["distinct"] != len(events) + 1: raise Infra("TLC failed on TraceRuns:\n" + t["out"][-3000:])
    ctx.states += t["distinct"]; ctx.trans += t["gen"]; ctx.traces += len(events)
    ctx.cover["events:TraceRuns"] = len(events)
    return {int(m.group(1)): m.group(2).replace('\\"', '"') for m in re.finditer(r'"REJECT <<(-?\d+), (.*)>>"', t["out"])}

CHECKS = {"C04": c04, "C06": c06}
