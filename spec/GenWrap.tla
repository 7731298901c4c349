------------------------------- MODULE GenWrap ------------------------------
(***************************************************************************)
(* Mods: a program is compiled, and then, in one or two further stages,    *)
(* its methods are wrapped and replaced, its functions replaced, methods   *)
(* and a field added.  What is called in the end, by code compiled earlier *)
(* or later, is the outermost wrapper; what a wrapper wraps is what was    *)
(* there before it.                                                        *)
(***************************************************************************)
EXTENDS GenProg

\* a change: what it does ("wrap", "replace", "add"), to which function, and what it puts there
Change(kind, f, fn) == [kind |-> kind, f |-> f, fn |-> fn]
At(f) == CHOOSE n \in DOMAIN Order : Order[n] = f
Place0(f) == IF f = "A.X" THEN 10 ELSE IF f = "B.N" THEN 8 ELSE At(f)
\* what the code of the change may call: st, what there is by then
Reach(f, st) == CanCall(Place0(f)) \cup (IF Place0(f) > 10 /\ "A.X" \in st THEN {"A.X"} ELSE {})
NewFn(kind, f, u, st) ==
  LET w == IF kind = "wrap" THEN {Wrapped(f, u)} ELSE {}
      \* twice as likely to call what it wraps
      can == IF kind = "wrap" /\ R(1..2) = 1 THEN w ELSE Reach(f, st) \cup w
      s == Sigs[f]
      k == [vars |-> [m \in DOMAIN s.ps |-> <<s.ps[m].x, s.ps[m].t>>], can |-> can, cls |-> IF "static" \in Range(s.quals) THEN "" ELSE s.cls, ret |-> s.r, brk |-> FALSE, added |-> "k" \in st]
      b == TLCEval(Through(R(1..3), 1, k))
      body == IF b[1] # <<>> /\ b[1][Len(b[1])].k = "return" THEN Front(b[1]) ELSE b[1]
      wf == Wrapped(f, u)
      \* and often ends with it
      last == TLCEval(IF kind = "wrap" /\ Callable(wf, b[2]) /\ R(1..3) # 1 THEN LET e == GCall(wf, 1, b[2]) IN IF s.r = "" THEN <<Do(e)>> ELSE <<NodeS("return", <<>>, <<e>>)>>
                      ELSE IF s.r # "" /\ R(1..4) # 1 THEN <<Returning(1, b[2])>> ELSE <<>>)
  IN [cls |-> s.cls, name |-> s.name, quals |-> s.quals, params |-> ParamsOf(f), ret |-> IF s.r = "" THEN <<>> ELSE <<T[s.r]>>, body |-> body \o last, native |-> FALSE]
\* the changes of a stage; at most one replacement of a function in each
RECURSIVE Changes(_, _, _, _)
Changes(n, u, st, done) ==
  IF n = 0 THEN <<>>
  ELSE LET o == R(1..8)
           opts == IF o <= 5 THEN {<<"wrap", f>> : f \in Wrappable}
                   ELSE IF o <= 7 THEN {<<"replace", f>> : f \in (Wrappable \cup {"Sum", "SumS", "Inc", "Arr"}) \ done}
                   ELSE {<<"add", f>> : f \in {"A.X", "B.N"} \ st}
           c == R(IF opts = {} THEN {<<"wrap", "A.M">>} ELSE opts)
           ch == TLCEval(Change(c[1], c[2], NewFn(c[1], c[2], u, st)))
       IN <<ch>> \o Changes(n - 1, u + 1, IF c[1] = "add" THEN st \cup {c[2]} ELSE st, IF c[1] = "replace" THEN done \cup {c[2]} ELSE done)
After(st, cs) == st \cup {cs[m].f : m \in {m \in DOMAIN cs : cs[m].kind = "add"}}

\* ---------------------------------------------------------------- what they amount to
\* layers: function -> what it is now; the replacements of a stage come before its wrappers
Put1(acc, c) == CASE c.c.kind = "wrap" -> [acc EXCEPT ![Wrapped(c.c.f, c.u)] = acc[c.c.f], ![c.c.f] = c.c.fn] [] OTHER -> [acc EXCEPT ![c.c.f] = c.c.fn]
Stage(fns, cs, u0) == LET ns == [m \in DOMAIN cs |-> [c |-> cs[m], u |-> u0 + m - 1]] IN
  FoldLeft(Put1, FoldLeft(Put1, fns, SelectSeq(ns, LAMBDA c : c.c.kind # "wrap")), SelectSeq(ns, LAMBDA c : c.c.kind = "wrap"))

\* ---------------------------------------------------------------- text
Note1(name, cls) == <<"@", "~", name, "(", cls, ")">>
Anno(c) == CASE c.kind = "add" -> Note1("addMethod", Sigs[c.f].cls)
             [] c.kind = "wrap" -> Note1("wrapMethod", Sigs[c.f].cls)
             [] Sigs[c.f].cls = "" -> <<"@", "~", "replaceGlobal", "(", ")">>
             [] OTHER -> Note1("replaceMethod", Sigs[c.f].cls)
ChangeToks(c) == Anno(c) \o FnToks(c.fn)
NewField == Note1("addField", "A") \o <<"let", "k", ":", "E", ";">>
\* in one file or two, in order
Split(es) == LET n == R(0..Len(es)) IN IF n = 0 \/ n = Len(es) THEN << FlattenSeq(es) >> ELSE << FlattenSeq(SubSeq(es, 1, n)), FlattenSeq(SubSeq(es, n + 1, Len(es))) >>

WrapCase(size, depth) ==
  LET P == TLCEval(Program(1, 1))
      n1 == R(1..4) n2 == R(0..3)
      field == R(1..2)                      \* the stage the field is added in, if there is a second one
      st1 == IF field = 1 THEN {"k"} ELSE {}
      c1 == TLCEval(Changes(n1, 1, st1, {}))
      st2 == After(st1, c1) \cup {"k"}
      c2 == TLCEval(IF n2 = 0 THEN <<>> ELSE Changes(n2, n1 + 1, st2, {}))
      st3 == IF n2 = 0 THEN After(st1, c1) ELSE After(st2, c2)
      where == R(0..2)                      \* the stage the main function is compiled in
      stM == IF where = 0 THEN {} ELSE IF where = 1 THEN After(st1, c1) ELSE st3
      main == TLCEval(FnWith("Main", CanCall(12) \cup (stM \ {"k"}), size, depth, "k" \in stM))
      base == TLCEval([P.fns EXCEPT !["Main"] = main] @@ [x \in {"A.X", "B.N"} \cup Range(WrapKey) |-> main])
      fns == TLCEval(Stage(Stage(base, c1, 1), c2, n1 + 1))
      used == {"A.X", "B.N"} \cap st3
      has(f) == f \in used
      keys == DOMAIN P.fns \cup used \cup {Wrapped(c1[m].f, m) : m \in {m \in DOMAIN c1 : c1[m].kind = "wrap"}} \cup {Wrapped(c2[m].f, n1 + m) : m \in {m \in DOMAIN c2 : c2[m].kind = "wrap"}}
      MA == IF has("A.X") THEN Meth.A @@ [X |-> "A.X"] ELSE Meth.A
      MB == [Meth.B EXCEPT !.N = IF has("B.N") THEN "B.N" ELSE "A.N"] @@ (IF has("A.X") THEN [X |-> "A.X"] ELSE <<>>)
      cls == IF "k" \in st3 THEN [Classes EXCEPT !.A.fields = Append(@, Fld("k", "E"))] ELSE Classes
      mods(cs, f) == [m \in DOMAIN cs |-> ChangeToks(cs[m])] \o (IF f THEN <<NewField>> ELSE <<>>)
      mt == <<FnToks(main)>>
      s0 == TLCEval(Shuffle([Entries([P EXCEPT !.fns["Main"] = main]) EXCEPT ![10] = IF where = 0 THEN @ ELSE <<>>]))
      s1 == mods(c1, field = 1) \o (IF where = 1 \/ (where = 2 /\ n2 = 0) THEN mt ELSE <<>>)
      s2 == mods(c2, field = 2) \o (IF where = 2 THEN mt ELSE <<>>)
      names(cs) == {Sigs[cs[m].f].name : m \in DOMAIN cs} \cup {"A", "B"}
  IN [k |-> "prog", want |-> [classes |-> <<>>, touched |-> << <<>>, SetToSeq(names(c1)), SetToSeq(names(c2)) >>, places |-> Placed], stages |-> << <<FlattenSeq(s0)>>, Split(s1) >> \o (IF n2 = 0 THEN <<>> ELSE <<Split(s2)>>),
      prog |-> [fns |-> [x \in keys |-> fns[x]], classes |-> cls, meth |-> [A |-> MA, B |-> MB], enums |-> Enums]]
InitW == \E n \in 1..Rounds : \E c \in {TLCEval(WrapCase(R(1..4), R(1..2)))} : theCase = c
=============================================================================
