------------------------------ MODULE RsLocals ------------------------------
(***************************************************************************)
(* Locals: bytecode lists them and assigns to them, source declares them.  *)
(*   A body is a sequence of statements: an expression tree, or a branch   *)
(*   [if, then] over one.                                                  *)
(* A source body is right when                                             *)
(*   - every local is declared exactly once, outside of any block, with    *)
(*     its type, and nothing else is declared;                             *)
(*   - nothing mentions a local before its declaration is complete;        *)
(*   - with declarations taken for the assignments they make, it is the    *)
(*     statements of the bytecode.                                         *)
(***************************************************************************)
EXTENDS RsLang

Exp(e) == [p |-> "exp", e |-> e, b |-> <<>>]
IfT(e, b) == [p |-> "if", e |-> e, b |-> b]
RECURSIVE StFlat(_), StAst(_, _), Many(_)
Many(b) == FlattenSeq([n \in DOMAIN b |-> StFlat(b[n])])
StFlat(s) == IF s.p = "exp" THEN Flat(s.e)
             ELSE LET c == TLCEval(Flat(s.e)) t == TLCEval(Many(s.b)) IN << I("JumpIfFalse", <<3 + CodeSize(c) + CodeSize(t)>>) >> \o c \o t
StAst(fn, s) == IF s.p = "exp" THEN AstOf(fn, s.e, <<>>)
                ELSE Nd("If", <<>>, <<AstOf(fn, s.e, <<>>), Nd("Seq", <<>>, [n \in DOMAIN s.b |-> StAst(fn, s.b[n])])>>)

\* names the tree mentions
RECURSIVE Mentions(_)
Mentions(x) == (IF x.t = "Ident" THEN {x.s[1]} ELSE {}) \cup UNION {Mentions(x.k[n]) : n \in DOMAIN x.k}
RECURSIVE Declares(_)
Declares(x) == x.t = "Declare" \/ \E n \in DOMAIN x.k : Declares(x.k[n])

LocalOf(key) == [name |-> ByKey(key).name, type |-> ByKey(ByKey(key).type).name]
Names(L) == {l.name : l \in L}
\* body: a sequence of source statements; L: the locals
DeclaredOnce(body, L) ==
  /\ \A l \in L : Cardinality({n \in DOMAIN body : body[n].t = "Declare" /\ body[n].s = <<l.name, l.type>>}) = 1
  /\ \A n \in DOMAIN body : body[n].t = "Declare" => Len(body[n].s) = 2 /\ (\A m \in 1..(n - 1) : body[m].t = "Declare" => body[m].s[1] # body[n].s[1]) /\ [name |-> body[n].s[1], type |-> body[n].s[2]] \in L
  /\ \A n \in DOMAIN body : \A m \in DOMAIN body[n].k : ~Declares(body[n].k[m])
DeclaredBefore(body, L) ==
  \A n \in DOMAIN body : body[n].t = "Declare" =>
     \A m \in 1..n : body[n].s[1] \notin UNION {Mentions(body[m].k[j]) : j \in DOMAIN body[m].k} \cup (IF body[m].t = "Ident" THEN {body[m].s[1]} ELSE {})
Undeclared(body) == LET S == SelectSeq(body, LAMBDA x : x.t # "Declare" \/ x.k # <<>>) IN
                    [n \in DOMAIN S |-> IF S[n].t = "Declare" THEN Nd("Assign", <<>>, <<Ident(S[n].s[1]), S[n].k[1]>>) ELSE S[n]]
=============================================================================
