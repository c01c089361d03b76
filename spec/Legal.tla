------------------------------- MODULE Legal -------------------------------
(***************************************************************************)
(* Which names a set of modules may use.  Ms is the sequence of modules as *)
(* they are written, each with its definitions in the order written (so    *)
(* that a name may occur twice):                                           *)
(*    [name, imports : seq of [from, names : seq of [n, k]],               *)
(*     defs : seq of definitions]                                          *)
(*    definition [n, k : "type" | "value", params, t, v]                   *)
(* with type expressions and values as in Schema.                          *)
(*                                                                         *)
(* Legality(Ms) is "bad" when a name is defined twice in a module, or is   *)
(* referred to or imported without being there; "good" when not, and       *)
(* "open" where X.680 and the compiler draw the line elsewhere.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Where(Ms, name) == {i \in 1..Len(Ms) : Ms[i].name = name}
Own(m, n, k) == {j \in 1..Len(m.defs) : m.defs[j].n = n /\ m.defs[j].k = k}
Range(s) == {s[i] : i \in 1..Len(s)}
\* Where in the imports a name is: pairs of import and place in it.
Places(m, n, k) == UNION {{<<j, x>> : x \in {x \in 1..Len(m.imports[j].names) : m.imports[j].names[x] = [n |-> n, k |-> k]}} : j \in 1..Len(m.imports)}
Froms(m, n, k) == {m.imports[p[1]].from : p \in Places(m, n, k)}

\* The definition a name of module m stands for, and where it is: <<>> if there is none.
RECURSIVE Reach(_, _, _, _, _)
Reach(Ms, m, n, k, fuel) ==
  IF fuel = 0 \/ Where(Ms, m) = {} THEN <<>>
  ELSE LET mod == Ms[CHOOSE i \in Where(Ms, m) : TRUE]
           own == Own(mod, n, k) IN
       IF own # {} THEN <<[m |-> m, d |-> mod.defs[CHOOSE j \in own : TRUE]]>>
       ELSE IF Froms(mod, n, k) = {} THEN <<>>
       ELSE Reach(Ms, CHOOSE f \in Froms(mod, n, k) : TRUE, n, k, fuel - 1)
Find(Ms, m, n, k) == Reach(Ms, m, n, k, Len(Ms) + 1)

\* Worst of two verdicts: what is wrong stays wrong.
Worst(S) == IF "bad" \in S THEN "bad" ELSE IF "open" \in S THEN "open" ELSE "good"

\* The type expression which governs a value where a type is written: without references and tags; <<>> if not found.
RECURSIVE Governing(_, _, _, _)
Governing(Ms, m, t, fuel) ==
  IF fuel = 0 THEN <<>>
  ELSE CASE t.k = "tag" -> Governing(Ms, m, t.t, fuel)
         [] t.k = "ref" -> LET f == Find(Ms, IF t.mod = "" THEN m ELSE t.mod, t.n, "type") IN
                           IF f = <<>> \/ f[1].d.params # <<>> THEN <<>> ELSE Governing(Ms, f[1].m, f[1].d.t, fuel - 1)
         [] OTHER -> <<t>>
Names(t) == CASE t.k = "enum" -> {x.n : x \in Range(t.items)} [] t.k = "int" -> {x.n : x \in Range(t.nn)} [] OTHER -> {}

VOk(Ms, m, params, t, v) ==
  IF v.k # "name" THEN "good"
  ELSE IF t.k = "ref" /\ t.mod = "" /\ t.n \in params THEN "open"
  ELSE LET g == Governing(Ms, m, t, 12) IN
       IF g = <<>> THEN "open"
       ELSE IF v.n \in Names(g[1]) THEN "good"
       ELSE IF Find(Ms, m, v.n, "value") = <<>> THEN "bad" ELSE "good"

RECURSIVE TOk(_, _, _, _)
TOk(Ms, m, params, t) ==
  CASE t.k = "ref" ->
         IF t.mod = "" /\ t.n \in params THEN (IF t.args = <<>> THEN "good" ELSE "open")
         ELSE LET f == Find(Ms, IF t.mod = "" THEN m ELSE t.mod, t.n, "type") IN
              IF f = <<>> THEN "bad"
              ELSE Worst({TOk(Ms, m, params, a) : a \in Range(t.args)}
                         \cup {IF Len(f[1].d.params) = Len(t.args) THEN "good" ELSE "open"}
                         \* a name another module has imported itself
                         \cup {IF t.mod = "" \/ f[1].m = t.mod THEN "good" ELSE "open"}
                         \cup {IF t.mod = "" \/ \E i \in 1..Len(Ms) : Ms[i].name = m /\ \E j \in 1..Len(Ms[i].imports) : Ms[i].imports[j].from = t.mod THEN "good" ELSE "open"})
    [] t.k \in {"seq", "set", "choice"} ->
         Worst(UNION {{TOk(Ms, m, params, c.t), VOk(Ms, m, params, c.t, c.dv)} : c \in Range(t.c)})
    [] t.k \in {"of", "tag"} -> TOk(Ms, m, params, t.t)
    [] OTHER -> "good"

\* Modules which import from each other in a circle.
RECURSIVE Uses(_, _, _)
Uses(Ms, m, fuel) ==
  LET next == UNION {{i.from : i \in Range(Ms[j].imports)} : j \in Where(Ms, m)} IN
  IF fuel = 0 THEN {} ELSE next \cup UNION {Uses(Ms, x, fuel - 1) : x \in next}
Circular(Ms) == \E i \in 1..Len(Ms) : Ms[i].name \in Uses(Ms, Ms[i].name, Len(Ms))

ModuleOk(Ms, i) ==
  LET m == Ms[i]
      own == {<<d.n, d.k>> : d \in Range(m.defs)}
      imported == UNION {{<<x.from, y.n, y.k>> : y \in Range(x.names)} : x \in Range(m.imports)} IN
  Worst({IF Cardinality(Own(m, x[1], x[2])) > 1 THEN "bad" ELSE "good" : x \in own}
        \cup {IF Find(Ms, x[1], x[2], x[3]) = <<>> THEN "bad" ELSE "good" : x \in imported}
        \cup {TOk(Ms, m.name, Range(d.params), d.t) : d \in Range(m.defs)}
        \cup {VOk(Ms, m.name, {}, d.t, d.v) : d \in {d \in Range(m.defs) : d.k = "value"}}
        \* X.680 has no module with imports and nothing else; some compilers take it.
        \cup {IF m.imports # <<>> /\ m.defs = <<>> THEN "open" ELSE "good"}
        \* X.680 does not allow these either; nothing here depends on what becomes of them.
        \cup {IF <<x[2], x[3]>> \in own \/ Cardinality(Places(m, x[2], x[3])) > 1 THEN "open" ELSE "good" : x \in imported})
Legality(Ms) ==
  Worst({ModuleOk(Ms, i) : i \in 1..Len(Ms)}
        \cup {IF Cardinality(Where(Ms, Ms[i].name)) > 1 THEN "open" ELSE "good" : i \in 1..Len(Ms)}
        \cup {IF Circular(Ms) THEN "open" ELSE "good"})
=============================================================================
