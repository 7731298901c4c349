------------------------------- MODULE GenHier ------------------------------
(***************************************************************************)
(* Every small class hierarchy, declared in every order, at once or in two *)
(* compilations.  Class n has a field, a method and a cast of its own, and *)
(* a function that makes one.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSetsExt, Functions, Json, TLC
CONSTANT N
VARIABLE theCase

Id(x, n) == x \o ToString(n)
Bases == [1..N -> 0..(N - 1)]
Trees == {p \in Bases : \A n \in 1..N : p[n] < n}
Orders == {p \in [1..N -> 1..N] : IsInjective(p)}
\* what class n has a field of: one declared in the same compilation or before
Knows(n, s) == LET m == N + 1 - n IN IF n <= s /\ m > s THEN n ELSE m
ClassText(n, p, s) ==
  <<"public", "class", Id("C", n)>> \o (IF p[n] = 0 THEN <<>> ELSE <<"extends", Id("C", p[n])>>) \o <<"{">>
  \o <<"let", Id("f", n), ":", "ref", "~", "<", Id("C", Knows(n, s)), ">", ";">>
  \o <<"public", "func", Id("M", n), "(", ")", "->", "ref", "~", "<", Id("C", n), ">", "{", "return", "this", "~", "." , "~", Id("f", n), "as", Id("C", n), ";", "}">>
  \o <<"public", "final", "func", Id("K", n), "(", "o", ":", "ref", "~", "<", "IScriptable", ">", ")", "->", "ref", "~", "<", Id("C", n), ">", "{", "return", "o", "as", Id("C", n), ";", "}", "}">>
MakeText(n) == <<"func", Id("Make", n), "(", ")", "->", "ref", "~", "<", Id("C", n), ">", "{", "return", "new", Id("C", n), "~", "(", ")", ";", "}">>
Text(o, p, s, S) == LET ns == SelectSeq([m \in 1..N |-> o[m]], LAMBDA n : n \in S) IN FlattenSeq([m \in DOMAIN ns |-> ClassText(ns[m], p, s) \o MakeText(ns[m])])
Want(p, s) == [classes |-> [n \in 1..N |-> [name |-> Id("C", n), base |-> IF p[n] = 0 THEN "IScriptable" ELSE Id("C", p[n]), fields |-> <<Id("f", n)>>, of |-> Id("ref:C", Knows(n, s)),
                                         fns |-> <<Id("M", n), Id("K", n)>>, make |-> Id("Make", n)]],
               touched |-> [m \in 1..2 |-> <<>>], places |-> [m \in 1..(3 * N) |-> IF m <= N THEN Id("C", m) ELSE IF m <= 2 * N THEN Id("M", m - N) ELSE Id("Make", m - 2 * N)]]
\* s: how many are in the first compilation of two
Case(o, p, s) == [k |-> "image", want |-> Want(p, s),
                  stages |-> IF s = 0 THEN << <<Text(o, p, s, 1..N)>> >> ELSE << <<Text(o, p, s, 1..s)>>, <<Text(o, p, s, (s + 1)..N)>> >>]
Prelude == <<"native", "class", "IScriptable", "{", "}", "native", "func", "Any", "(", "o", ":", "ref", "~", "<", "IScriptable", ">", ")", ";">>
ASSUME PrintT("CASE " \o ToJson([k |-> "env", prelude |-> Prelude, lazy |-> <<>>, rename |-> <<>>]))
Init == \E o \in Orders : \E p \in Trees : \E s \in 0..(N - 1) : theCase = Case(o, p, s)
Next == FALSE /\ UNCHANGED theCase
EmitCase == PrintT("CASE " \o ToJson(theCase))
=============================================================================
