----------------------------- MODULE TraceCore -----------------------------
(***************************************************************************)
(* Judges recorded events of the header layer (properties B01, B02, B03)   *)
(* against Ber.                                                            *)
(***************************************************************************)
EXTENDS Ber, TraceBase

VARIABLE i

\* A difference: field name and what the specification expects.
D(field, got, exp) == IF got = exp THEN <<>> ELSE <<<<field, exp>>>>
True(field, got)   == D(field, got, TRUE)

-----------------------------------------------------------------------------
VParse(e) ==
  LET t == ParseTLV(e.b) IN
  D("ok", e.ok, t.ok) \o True("same", e.same) \o True("csame", e.csame) \o
  (IF ~(t.ok /\ e.ok) THEN <<>> ELSE
     D("cls", e.cls, t.cls) \o D("cons", e.cons, t.cons) \o D("tag", e.tag, t.tag) \o
     D("icls", e.icls, t.cls) \o D("itag", e.itag, t.tag) \o
     D("idlen", e.idlen, t.idlen) \o D("hdr", e.hdr, t.hdr) \o D("len", e.len, t.len) \o
     D("off", e.off, 0) \o D("coff", e.coff, t.hdr) \o D("size", e.size, Size(t)) \o
     D("content", e.content, Content(e.b, t)) \o D("ber", e.ber, Element(e.b, t)))

VExtract(e) ==
  LET id == ParseIdentifier(e.b)
      l  == ParseLength(Drop(e.b, e.at)) IN
  D("kok", e.kok, e.b # <<>>) \o D("cok", e.cok, e.b # <<>>) \o
  (IF e.b = <<>> THEN <<>>
   ELSE D("cons", e.cons, ConsOf(e.b[1])) \o D("cls", e.cls, ClassOf(e.b[1]))) \o
  D("tn", e.tn, id.n) \o D("tag", e.tag, id.tag) \o
  D("ln", e.ln, l.n) \o D("len", e.len, l.len)

VEnc(e) ==
  LET id  == EncIdentifier(e.cls, e.cons, e.tag)
      ln  == EncLength(e.len)
      h   == id \o ln
      fits(s) == Len(s) <= e.buf
      res(s)  == IF fits(s) THEN s ELSE <<>> IN
  D("pid", e.pid, Len(id)) \o D("ptag", e.ptag, Len(id)) \o D("pll", e.pll, Len(ln)) \o
  D("plen", e.plen, Len(h)) \o
  D("r", e.r, Len(res(h))) \o D("out", e.out, res(h)) \o
  D("ri", e.ri, Len(res(id))) \o D("outi", e.outi, res(id)) \o
  D("rl", e.rl, Len(res(ln))) \o D("outl", e.outl, res(ln)) \o
  True("guard", e.guard) \o True("uni", e.uni)

(* Header for a static identifier (one or two levels) around content of    *)
(* e.clen octets.  clen < 2^31 here.                                        *)
RECURSIVE StaticHeader(_, _, _)
StaticHeader(ids, cons, clen) ==
  IF Len(ids) = 1 THEN EncHeader(ids[1].cls, cons, ids[1].tag, clen)
  ELSE LET inner == StaticHeader(Tail(ids), cons, clen) IN
       EncHeader(ids[1].cls, Constructed, ids[1].tag, Len(inner) + clen) \o inner

\* Length of identifiers and outer lengths around "length octets + content" of n.
RECURSIVE FromIdAndLength(_, _)
FromIdAndLength(ids, n) ==
  IF Len(ids) = 1 THEN n + IdentifierLength(ids[1].tag)
  ELSE LET inner == FromIdAndLength(Tail(ids), n) IN
       inner + LengthLength(Digits(inner, 256)) + IdentifierLength(ids[1].tag)

VSid(e) ==
  LET h   == StaticHeader(e.ids, e.cons, e.clen)
      all == Len(h) + e.clen
      \* One level: the header alone must fit; two levels: all must fit.
      ok  == IF Len(e.ids) = 1 THEN Len(h) <= e.buf ELSE all <= e.buf IN
  D("phdr", e.phdr, Len(h)) \o D("pall", e.pall, all) \o D("pll", e.pll, FromIdAndLength(e.ids, e.clen)) \o
  D("ok", e.ok, ok) \o D("r", e.r, IF ok THEN all ELSE 0) \o
  D("out", e.out, IF ok THEN h ELSE <<>>) \o True("guard", e.guard)

VWrap(e) ==
  LET w  == Wrap(e.ids, e.cons, e.content)
      ok == Len(w) <= e.buf IN
  D("ok", e.ok, ok) \o D("r", e.r, IF ok THEN Len(w) ELSE 0) \o
  D("out", e.out, IF ok THEN w ELSE <<>>) \o True("guard", e.guard)

\* Tree of elements under the element at offset off of b (b = its octets).
RECURSIVE Tree(_, _, _)
Tree(b, off, depth) ==
  LET t    == ParseTLV(b)
      kids == IF t.ok THEN Siblings(Content(b, t), off + t.hdr) ELSE <<>> IN
  [k \in 1..Len(kids) |->
     [v |-> kids[k],
      k |-> IF kids[k].cons = Constructed /\ depth > 0
            THEN Tree(SubSeq(b, kids[k].off - off + 1, kids[k].off - off + kids[k].hdr + kids[k].len),
                      kids[k].off, depth - 1)
            ELSE <<>>]]

VIter(e) ==
  LET s == Siblings(e.b, 0)
      t == ParseTLV(e.b)
      ck == IF t.ok THEN Siblings(Content(e.b, t), t.hdr) ELSE <<>> IN
  D("kids", e.kids, s) \o D("mkids", e.mkids, s) \o True("stay", e.stay) \o
  D("els", e.els, Elements(e.b)) \o True("enc", e.enc) \o
  D("tree", e.tree, Tree(e.b, 0, 8)) \o D("ckids", e.ckids, ck) \o True("agree", e.agree)

Verdict(e) ==
  CASE e.op = "parse"   -> VParse(e)
    [] e.op = "extract" -> VExtract(e)
    [] e.op = "enc"     -> VEnc(e)
    [] e.op = "sid"     -> VSid(e)
    [] e.op = "wrap"    -> VWrap(e)
    [] e.op = "iter"    -> VIter(e)

-----------------------------------------------------------------------------
Init == i \in {k \in 1..N : k % Chunk = 1}
Next == i % Chunk # 0 /\ i < N /\ i' = i + 1
Check == LET v == Verdict(Trace[i]) IN
         v = <<>> \/ PrintT("REJECT " \o ToString(<<Trace[i].n, v>>))
=============================================================================
