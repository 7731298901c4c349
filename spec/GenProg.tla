------------------------------- MODULE GenProg ------------------------------
(***************************************************************************)
(* Programs at random, as people would write them: well-typed, in a small  *)
(* world of two classes, a struct, an enum and functions that call each    *)
(* other downwards.  What the compiler makes of each is judged by          *)
(* JudgeProg.                                                              *)
(***************************************************************************)
EXTENDS RsSrc, Json
CONSTANT Rounds
VARIABLE theCase

R(S) == TLCEval(RandomElement(S))
\* ---------------------------------------------------------------- the world
T == ("I" :> Int32) @@ ("B" :> Bool) @@ ("S" :> Str) @@ ("A" :> ArrOf(Int32)) @@ ("P" :> StructT("P")) @@ ("O" :> RefTo("A")) @@ ("Q" :> RefTo("B"))
     @@ ("W" :> WRefTo("A")) @@ ("E" :> EnumT("E")) @@ ("V" :> VariantT)
Values == DOMAIN T \ {"V"}
Names == ("I" :> {"i", "j"}) @@ ("B" :> {"b", "i"}) @@ ("S" :> {"s", "j"}) @@ ("A" :> {"r", "i"}) @@ ("P" :> {"v"}) @@ ("O" :> {"o", "s"}) @@ ("Q" :> {"q", "o"})
         @@ ("W" :> {"w"}) @@ ("E" :> {"e"})
Enums == [E |-> << [x |-> "X", n |-> 0], [x |-> "Y", n |-> 5], [x |-> "Z", n |-> 1] >>]
Fld(x, t) == [x |-> x, y |-> T[t], out |-> FALSE, opt |-> FALSE]
Classes == [A |-> [base |-> "", fields |-> <<Fld("n", "I"), Fld("v", "P"), Fld("r", "A"), Fld("w", "W"), Fld("s", "S")>>, struct |-> FALSE, quals |-> <<"public", "native">>],
            B |-> [base |-> "A", fields |-> <<Fld("m", "I"), Fld("o", "O")>>, struct |-> FALSE, quals |-> <<"public">>],
            P |-> [base |-> "", fields |-> <<Fld("a", "I"), Fld("b", "I"), Fld("z", "B")>>, struct |-> TRUE, quals |-> <<"public">>]]
PartPos == [a |-> 1, b |-> 2, z |-> 3]
Par(x, t) == [x |-> x, t |-> t, out |-> FALSE, opt |-> FALSE]
ParOut(x, t) == [Par(x, t) EXCEPT !.out = TRUE]
ParOpt(x, t) == [Par(x, t) EXCEPT !.opt = TRUE]
Sig(cls, name, quals, ps, r) == [cls |-> cls, name |-> name, quals |-> quals, ps |-> ps, r |-> r]
Sigs0 == ("Sum" :> Sig("", "Sum", <<>>, <<Par("i", "I"), ParOpt("j", "I")>>, "I"))
     @@ ("SumS" :> Sig("", "Sum", <<>>, <<Par("s", "S"), Par("i", "I")>>, "S"))
     @@ ("Inc" :> Sig("", "Inc", <<>>, <<ParOut("i", "I"), Par("j", "I")>>, "B"))
     @@ ("Arr" :> Sig("", "Arr", <<>>, <<Par("r", "A"), Par("j", "I")>>, "A"))
     @@ ("Fill" :> Sig("", "Fill", <<>>, <<ParOut("r", "A"), ParOut("v", "P"), ParOpt("b", "B")>>, ""))
     @@ ("A.K" :> Sig("A", "K", <<"public", "final">>, <<Par("w", "W")>>, "O"))
     @@ ("A.N" :> Sig("A", "N", <<"public">>, <<ParOut("i", "I")>>, ""))
     @@ ("A.T" :> Sig("A", "T", <<"public", "static">>, <<Par("v", "P"), Par("s", "S")>>, "P"))
     @@ ("A.M" :> Sig("A", "M", <<"public">>, <<Par("i", "I")>>, "I"))
     @@ ("B.M" :> Sig("B", "M", <<"public">>, <<Par("j", "I")>>, "I"))
     @@ ("B.L" :> Sig("B", "L", <<"public">>, <<Par("o", "O"), Par("e", "E")>>, "E"))
     @@ ("A.X" :> Sig("A", "X", <<"public">>, <<Par("i", "I"), ParOpt("b", "B")>>, "I"))
     @@ ("B.N" :> Sig("B", "N", <<"public">>, <<ParOut("i", "I")>>, ""))
     @@ ("Main" :> Sig("", "Main", <<>>, <<>>, "I"))
\* what the u-th change of a program wraps
MaxChanges == 7
Wrapped(f, u) == f \o "#" \o ToString(u)
Wrappable == {"A.K", "A.N", "A.T", "A.M", "B.M", "B.L"}
WrapKey == [x \in Wrappable \X (1..MaxChanges) |-> Wrapped(x[1], x[2])]
Sigs == Sigs0 @@ [w \in Range(WrapKey) |-> LET x == CHOOSE x \in DOMAIN WrapKey : WrapKey[x] = w s == Sigs0[x[1]] IN [s EXCEPT !.cls = "", !.name = "wrappedMethod", !.quals = <<>>]]
Order == <<"Sum", "SumS", "Inc", "Arr", "Fill", "A.K", "A.N", "A.T", "A.M", "B.M", "B.L", "Main">>
\* what is seen
Nt(name, ps, r) == [cls |-> "", name |-> name, quals |-> <<"native">>, params |-> ps, ret |-> r, body |-> <<>>, native |-> TRUE, seen |-> name]
NP(x, y) == [x |-> x, y |-> y, out |-> FALSE, opt |-> FALSE]
Natives == ("Test" :> Nt("Test", <<NP("n", Int32)>>, <<Bool>>)) @@ ("Pick" :> Nt("Pick", <<NP("n", Int32)>>, <<Int32>>)) @@ ("Obs" :> Nt("Obs", <<NP("n", Int32)>>, <<Int32>>))
        @@ ("Word" :> Nt("Word", <<NP("n", Int32)>>, <<Str>>))
        @@ ("Note" :> Nt("Note", <<NP("a", Int32), [NP("b", Bool) EXCEPT !.opt = TRUE], [NP("s", Str) EXCEPT !.opt = TRUE]>>, <<>>))
        @@ ("SeeA" :> Nt("SeeA", <<NP("r", ArrOf(Int32))>>, <<>>)) @@ ("SeeV" :> Nt("SeeV", <<NP("v", VariantT)>>, <<>>))
        @@ ("SeeR" :> Nt("SeeR", <<NP("s", ScriptRef(Str))>>, <<>>))
WorldNatives == ("SeeP" :> Nt("SeeP", <<NP("v", T["P"])>>, <<>>)) @@ ("SeeO" :> Nt("SeeO", <<NP("o", T["O"])>>, <<>>)) @@ ("SeeW" :> Nt("SeeW", <<NP("w", T["W"])>>, <<>>))
        @@ ("SeeE" :> Nt("SeeE", <<NP("e", T["E"])>>, <<>>))
        @@ ("A.Poke" :> ([Nt("Poke", <<NP("n", Int32)>>, <<>>) EXCEPT !.cls = "A", !.quals = <<"public", "native">>] @@ [this |-> TRUE]))

\* ---------------------------------------------------------------- expressions
\* c: vars: what is in scope, as <<name, type>>; can: what may be called; cls: the class, "" in functions and static methods;
\*    own: the class whose base answers super; ret: the type returned; brk: whether break means anything
LastOf(k, x) == CHOOSE m \in {m \in DOMAIN k.vars : k.vars[m][1] = x} : \A o \in {o \in DOMAIN k.vars : k.vars[o][1] = x} : o <= m
Vis(k, t) == {k.vars[m][1] : m \in {m \in DOMAIN k.vars : k.vars[m][2] = t /\ LastOf(k, k.vars[m][1]) = m}}
Var(x) == NodeS("var", <<x>>, <<>>)
IntN(n) == [Node("int") EXCEPT !.n = n]
BoolN(n) == [Node("bool") EXCEPT !.n = n]
Fun(name, a, y) == [NodeS("fun", <<name>>, a) EXCEPT !.y = y]
Nativ(key, a) == NodeS("call", <<key, Natives[key].name>>, a)
Lit0(n) == IntN(R(0..n))
\* parentheses nobody needs, now and then
Paren(e) == IF R(1..8) = 1 /\ e.k \in {"bin", "un", "cond"} THEN [e EXCEPT !.n = 77] ELSE e

RECURSIVE GE(_, _, _), GP(_, _, _), GArgs(_, _, _, _)
Objs(k) == Vis(k, "O") \cup Vis(k, "Q") \cup Vis(k, "W")
\* an object without side effects: for fields
SomeObj(k) == IF k.cls # "" /\ (Objs(k) = {} \/ R(1..2) = 1) THEN Node("this") ELSE Var(R(Objs(k)))
HasObj(k) == k.cls # "" \/ Objs(k) # {}
HasB(k) == k.cls = "B" \/ Vis(k, "Q") # {}
SomeB(k) == IF k.cls = "B" /\ (Vis(k, "Q") = {} \/ R(1..2) = 1) THEN Node("this") ELSE Var(R(Vis(k, "Q")))
FieldsA == [I |-> "n", P |-> "v", A |-> "r", W |-> "w", S |-> "s"]
\* k.added: whether the field k has been added
FieldOfA(k) == IF k.added THEN FieldsA @@ [E |-> "k"] ELSE FieldsA
FieldOfB == [I |-> "m", O |-> "o"]
\* whether there is a place of the type
HasP(t, k) == Vis(k, t) # {} \/ (t \in DOMAIN FieldOfA(k) /\ HasObj(k)) \/ (t \in DOMAIN FieldOfB /\ HasB(k))
              \/ (t \in {"I", "B"} /\ (Vis(k, "P") # {} \/ HasObj(k))) \/ (t = "I" /\ Vis(k, "A") # {})
\* a place of type t
GP(t, d, k) ==
  LET opts == (IF Vis(k, t) # {} THEN {<<"var", 1>>, <<"var", 2>>, <<"var", 3>>} ELSE {})
              \cup (IF t \in DOMAIN FieldOfA(k) /\ HasObj(k) THEN {<<"fa", 1>>, <<"fa", 2>>} ELSE {})
              \cup (IF t \in DOMAIN FieldOfB /\ HasB(k) THEN {<<"fb", 1>>} ELSE {})
              \cup (IF t \in {"I", "B"} /\ (Vis(k, "P") # {} \/ HasObj(k)) THEN {<<"part", 1>>} ELSE {})
              \cup (IF t = "I" /\ (Vis(k, "A") # {} \/ (d > 0 /\ HasObj(k))) THEN {<<"elem", 1>>} ELSE {})
      o == R(opts)[1]
      Obj == IF d > 0 /\ R(1..4) = 1 THEN GE(R({"O", "Q", "W"}), d - 1, k) ELSE SomeObj(k) IN
  CASE o = "var" -> Var(R(Vis(k, t)))
    [] o = "fa" -> NodeS("field", <<FieldOfA(k)[t]>>, <<Obj>>)
    [] o = "fb" -> NodeS("field", <<FieldOfB[t]>>, <<SomeB(k)>>)
    [] o = "part" -> LET f == IF t = "B" THEN "z" ELSE R({"a", "b"}) IN [NodeS("part", <<f>>, <<GP("P", d, k)>>) EXCEPT !.n = PartPos[f]]
    [] o = "elem" -> NodeS("elem", <<>>, <<GP("A", 0, k), IF d > 0 /\ R(1..2) = 1 THEN GE("I", d - 1, k) ELSE Lit0(2)>>)
\* what may stand where a t is expected
GC(t, d, k) == CASE t = "O" -> (LET u == R({"O", "Q", "W", "null"}) IN IF u = "null" THEN (IF R(1..3) = 1 THEN Node("null") ELSE GE("O", d, k)) ELSE GE(u, d, k))
                 [] t = "W" -> (LET u == R({"O", "Q", "W", "null"}) IN IF u = "null" THEN (IF R(1..3) = 1 THEN Node("null") ELSE GE("W", d, k)) ELSE GE(u, d, k))
                 [] t = "V" -> GE(R({"I", "B", "S", "A", "P", "O", "E"}), d, k)
                 [] OTHER -> GE(t, d, k)
\* whether a function can be called: there is a place for each of its out parameters
Callable(f, k) == LET s == Sigs[f] IN \A m \in DOMAIN s.ps : s.ps[m].out => HasP(s.ps[m].t, k)
Ret(t, k) == {f \in k.can : Sigs[f].r = t /\ Callable(f, k)}
GArgs(ps, m, d, k) == IF m > Len(ps) \/ (ps[m].opt /\ R(1..2) = 1) THEN <<>>
                      ELSE LET a == TLCEval(IF ps[m].out THEN GP(ps[m].t, d, k) ELSE GC(ps[m].t, d, k)) r == TLCEval(GArgs(ps, m + 1, d, k)) IN <<a>> \o r
GCall(f, d, k) ==
  LET s == Sigs[f] a == TLCEval(GArgs(s.ps, 1, d, k)) IN
  CASE s.cls = "" -> NodeS("call", <<f, s.name>>, a)
    [] "static" \in Range(s.quals) -> NodeS("scall", <<f, s.cls, s.name>>, a)
    \* the function itself, not what overrides it
    [] f = "A.M" /\ k.cls = "B" -> NodeS("super", <<f, s.name>>, a)
    [] OTHER -> LET o == TLCEval(IF f = "B.L" \/ R(1..3) = 1 THEN (IF HasB(k) /\ R(1..2) = 1 THEN SomeB(k) ELSE GE("Q", d, k)) ELSE IF HasObj(k) /\ R(1..2) = 1 THEN SomeObj(k) ELSE GE(R({"O", "W"}), d, k)) IN
                NodeS("mcall", <<s.name, s.name>>, <<o>> \o a)
Binary(op, l, r, d, k) == NodeS("bin", <<op>>, <<GE(l, d, k), GE(r, d, k)>>)
Cond(t, d, k) == NodeS("cond", <<>>, <<GE("B", d, k), GE(t, d, k), GE(t, d, k)>>)
Matching(k, d) == LET t == R({"I", "S", "E", "B", "O"}) IN <<GE(t, d, k), GE(t, d, k)>>
Interp(d, k) == LET n == R(1..3) es == TLCEval([m \in 1..n |-> GE(R({"I", "S", "B", "E", "P"}), d, k)]) IN
                NodeS("interp", TLCEval([m \in 1..(n + 1) |-> R({"", "x", "a b", ": "})]), es)
W2(o) == {<<o, 1>>, <<o, 2>>}
W1(o) == {<<o, 1>>}
When(b, S) == IF b THEN S ELSE {}
Common(t, d, k) == When(Vis(k, t) # {}, W2("var")) \cup When(d > 0 /\ HasP(t, k), W2("place")) \cup When(d > 0 /\ Ret(t, k) # {}, W2("call")) \cup When(d > 0, W1("cond"))
Special(t, d, k) ==
  CASE t = "I" -> W1("lit") \cup W1("Obs") \cup When(d > 0, W2("arith") \cup W1("un") \cup W1("Pick") \cup W1("EnumInt") \cup W1("variant") \cup When(HasP("A", k), W2("array")))
    [] t = "B" -> W1("lit") \cup W2("Test") \cup When(d > 0, W2("rel") \cup W2("logic") \cup W1("not") \cup W1("Equals") \cup W1("IsDefined") \cup When(HasP("A", k), W1("array")))
    [] t = "S" -> W1("lit") \cup W1("Word") \cup When(d > 0, W2("add") \cup W1("ToString") \cup W2("interp"))
    [] t = "A" -> When(Vis(k, "A") = {}, W1("any"))
    [] t = "P" -> W1("new")
    [] t = "O" -> W1("new") \cup When(k.cls = "A", W1("this"))
    [] t = "Q" -> W1("new") \cup When(k.cls = "B", W1("this")) \cup When(d > 0, W1("as"))
    [] t = "W" -> When(Vis(k, "W") = {}, W1("any"))
    [] t = "E" -> W2("lit") \cup When(d > 0, W1("IntEnum"))
ArrayFn(t, d, k) ==
  LET p == TLCEval(GP("A", d - 1, k))
      f == R(IF t = "I" THEN {"ArraySize", "ArrayCount", "ArrayLast", "ArrayPop", "ArrayFindFirst", "ArrayFindLast"} ELSE {"ArrayContains", "ArrayRemove", "ArrayErase"})
  IN Fun(f, <<p>> \o (IF f \in {"ArraySize", "ArrayLast", "ArrayPop"} THEN <<>> ELSE <<GE("I", d - 1, k)>>), <<>>)
GE(t, d, k) ==
  LET o == R(Common(t, d, k) \cup Special(t, d, k))[1] IN
  CASE o = "var" -> Var(R(Vis(k, t)))
    [] o = "place" -> GP(t, d - 1, k)
    [] o = "call" -> GCall(R(Ret(t, k)), d - 1, k)
    [] o = "cond" -> Paren(Cond(t, d - 1, k))
    [] o = "lit" -> (CASE t = "I" -> Lit0(9) [] t = "B" -> BoolN(R(0..1)) [] t = "S" -> NodeS("str", <<R({"", "s", "two words", "1"})>>, <<>>)
                      [] t = "E" -> LET m == R(1..3) IN [NodeS("enum", <<"E", Enums.E[m].x>>, <<>>) EXCEPT !.n = Enums.E[m].n])
    [] o \in {"Obs", "Test", "Word", "Pick"} -> Nativ(o, <<IF d > 0 /\ R(1..3) = 1 THEN GE("I", d - 1, k) ELSE Lit0(9)>>)
    [] o = "arith" -> Paren(Binary(R(ArithOps), "I", "I", d - 1, k))
    [] o = "rel" -> Paren(Binary(R(RelOps), "I", "I", d - 1, k))
    [] o = "logic" -> Paren(Binary(R({"LogicAnd", "LogicOr"}), "B", "B", d - 1, k))
    [] o = "add" -> Paren(Binary("Add", "S", "S", d - 1, k))
    [] o = "un" -> NodeS("un", <<R({"Neg", "BitNot"})>>, <<GE("I", d - 1, k)>>)
    [] o = "not" -> NodeS("un", <<"LogicNot">>, <<GE("B", d - 1, k)>>)
    [] o = "EnumInt" -> Fun("EnumInt", <<GE("E", d - 1, k)>>, <<>>)
    [] o = "IntEnum" -> Fun("IntEnum", <<GE("I", d - 1, k)>>, <<T["E"]>>)
    [] o = "variant" -> Fun("FromVariant", <<Fun("ToVariant", <<GE("I", d - 1, k)>>, <<>>)>>, <<Int32>>)
    [] o = "array" -> ArrayFn(t, d, k)
    [] o = "Equals" -> Fun(R({"Equals", "NotEquals"}), Matching(k, d - 1), <<>>)
    [] o = "IsDefined" -> Fun("IsDefined", <<GE(R({"O", "Q", "W"}), d - 1, k)>>, <<>>)
    [] o = "ToString" -> Fun("ToString", <<GE(R({"I", "B", "E", "S", "P"}), d - 1, k)>>, <<>>)
    [] o = "interp" -> Interp(d - 1, k)
    [] o = "new" -> IF t = "P" THEN (IF d > 0 THEN NodeS("struct", <<"P">>, <<GE("I", d - 1, k), GE("I", d - 1, k), GE("B", d - 1, k)>>) ELSE NodeS("struct", <<"P">>, <<Lit0(9), Lit0(9), BoolN(1)>>))
                    ELSE NodeS("new", <<IF t = "O" THEN "A" ELSE "B">>, <<>>)
    [] o = "this" -> Node("this")
    [] o = "as" -> NodeS("as", <<"B">>, <<GE(R({"O", "W"}), d - 1, k)>>)
    [] o = "any" -> IF HasP(t, k) THEN GP(t, 0, k) ELSE NodeS("field", <<FieldOfA(k)[t]>>, <<NodeS("new", <<"A">>, <<>>)>>)

\* ---------------------------------------------------------------- statements
Let(x, t, a, annotated) == [NodeS("let", <<x>>, a) EXCEPT !.n = IF annotated THEN 1 ELSE 0, !.y = <<T[t]>>]
Set(p, t, e) == [NodeS("set", <<>>, <<p, e>>) EXCEPT !.y = <<T[t]>>]
ArrLit(d, k) == LET n == R(1..3) IN [NodeS("arr", <<>>, TLCEval([m \in 1..n |-> GE("I", d, k)])) EXCEPT !.y = <<Int32>>]
Declare(k, x, t) == [k EXCEPT !.vars = Append(@, <<x, t>>)]
\* a declaration of a new variable
GLet(d, k) ==
  LET t == R(Values) x == R(Names[t]) h == R(1..4) IN
  << Let(x, t, IF h = 1 THEN <<>> ELSE IF t = "A" /\ h = 2 THEN <<ArrLit(d, k)>> ELSE IF h = 3 THEN <<GC(t, d, k)>> ELSE <<GE(t, d, k)>>, h \in {1, 3}), Declare(k, x, t) >>
RECURSIVE GS(_, _), GB(_, _, _), GBs(_, _, _), Through(_, _, _)
Do(e) == NodeS("do", <<>>, <<e>>)
Mutate(d, k) ==
  LET p == TLCEval(GP("A", 1, k)) f == R({"ArrayPush", "ArrayClear", "ArrayInsert", "ArrayResize", "ArrayGrow", "ArrayErase", "ArrayRemove", "ArrayPop"}) IN
  Do(Fun(f, <<p>> \o (CASE f \in {"ArrayClear", "ArrayPop"} -> <<>> [] f = "ArrayInsert" -> <<Lit0(2), GE("I", d, k)>> [] f \in {"ArrayResize", "ArrayGrow", "ArrayErase"} -> <<Lit0(3)>>
                        [] OTHER -> <<GE("I", d, k)>>), <<>>))
See(d, k) == LET o == R({"Note", "SeeA", "SeeV", "SeeR", "SeeP", "SeeO", "SeeW", "SeeE", "Poke"}) IN
  CASE o = "Note" -> Do(Nativ("Note", SubSeq(<<GE("I", d, k), GE("B", d, k), GE("S", d, k)>>, 1, R(1..3))))
    [] o = "SeeA" -> Do(Nativ(o, <<IF R(1..3) = 1 THEN ArrLit(d, k) ELSE GE("A", d, k)>>))
    [] o = "SeeV" -> Do(Nativ(o, <<GC("V", d, k)>>))
    [] o = "SeeR" -> Do(Nativ(o, <<GE("S", d, k)>>))
    [] o = "Poke" -> Do(NodeS("mcall", <<"Poke", "Poke">>, <<GE(R({"O", "Q", "W"}), d, k), GE("I", d, k)>>))
    [] OTHER -> Do(NodeS("call", <<o, o>>, <<GC(SubSeq(o, 4, 4), d, k)>>))
\* conditions of loops always ask, so that loops end
Asking(d, k) == LET t == Nativ("Test", <<Lit0(9)>>) o == R({"t", "t", "and", "or", "not"}) IN
  CASE o = "t" -> t [] o = "and" -> NodeS("bin", <<"LogicAnd">>, <<t, GE("B", d, k)>>) [] o = "or" -> NodeS("bin", <<"LogicOr">>, <<NodeS("bin", <<"Equal">>, <<Nativ("Pick", <<Lit0(3)>>), IntN(1)>>), t>>)
    [] o = "not" -> NodeS("un", <<"LogicNot">>, <<t>>)
Ends(b) == b = <<>> \/ b[Len(b)].k \in {"break", "return"}
EndIt(b) == IF Ends(b) THEN b ELSE Append(b, Node("break"))
SwitchOn(d, k) ==
  LET t == R({"I", "S", "E"}) n == R(1..4) dfl == R(0..1)
      bs == TLCEval(GBs(n + dfl, d, [k EXCEPT !.brk = TRUE]))
      body(m) == IF m <= n /\ R(1..4) = 1 THEN <<>> ELSE IF m < n THEN EndIt(bs[m]) ELSE bs[m]
      bodies == TLCEval([m \in DOMAIN bs |-> body(m)])
      ms == TLCEval([m \in 1..n |-> IF R(1..4) = 1 THEN GE(t, 1, k) ELSE GE(t, 0, [k EXCEPT !.vars = <<>>])])
      subject == IF t = "I" THEN NodeS("bin", <<"Modulo">>, <<GE("I", d, k), IntN(4)>>) ELSE GE(t, d, k) IN
  [NodeS("switch", <<>>, <<subject>> \o ms) EXCEPT !.b = bodies, !.n = dfl]
Returning(d, k) == NodeS("return", <<>>, IF k.ret = "" THEN <<>> ELSE IF k.ret = "A" /\ R(1..2) = 1 THEN <<ArrLit(d, k)>> ELSE <<GC(k.ret, d, k)>>)
\* a statement, and what is in scope after it; k.d: how deep statements may nest, expressions may be deeper by one
GS(d, k) ==
  LET opts == W2("let") \cup W2("set") \cup W1("op") \cup W2("see") \cup W1("call") \cup When(HasP("A", k), W1("mutate"))
              \cup When(k.brk, W1("break")) \cup When(R(1..3) = 1, W1("return"))
              \cup When(d > 0, W2("if") \cup W1("if2") \cup W2("while") \cup W1("for") \cup W2("switch"))
      o == R(opts)[1] e == R(0..2) IN
  CASE o = "let" -> GLet(e, k)
    [] o = "set" -> LET ts == {t \in Values : HasP(t, k)} IN
         IF ts = {} THEN GLet(e, k)
         ELSE LET t == R(ts) IN << Set(GP(t, e, k), t, IF t = "A" /\ R(1..3) = 1 /\ Vis(k, "A") # {} THEN GE("A", e, k) ELSE GC(t, e, k)), k >>
    [] o = "op" -> IF ~HasP("I", k) THEN GLet(e, k) ELSE << NodeS("op", <<"Assign" \o R(AsgOps)>>, <<GP("I", e, k), GE("I", e, k)>>), k >>
    [] o = "see" -> << See(e, k), k >>
    [] o = "call" -> LET fs == {f \in k.can : Callable(f, k)} IN IF fs = {} THEN << See(e, k), k >> ELSE << Do(GCall(R(fs), e, k)), k >>
    [] o = "mutate" -> << Mutate(e, k), k >>
    [] o = "break" -> << Node("break"), k >>
    [] o = "return" -> << Returning(e, k), k >>
    [] o = "if" -> << [NodeS("if", <<>>, <<GE("B", e, k)>>) EXCEPT !.b = <<GB(R(0..2), d - 1, k)>>], k >>
    [] o = "if2" -> << [NodeS("if", <<>>, <<GE("B", e, k)>>) EXCEPT !.b = GBs(2, d - 1, k), !.n = R(0..1)], k >>
    [] o = "while" -> << [NodeS("while", <<>>, <<Asking(e, k)>>) EXCEPT !.b = <<GB(R(0..3), d - 1, [k EXCEPT !.brk = TRUE])>>], k >>
    [] o = "for" -> LET x == R({"i", "j"}) IN
         << [NodeS("for", <<x>>, <<IF R(1..2) = 1 THEN ArrLit(e, k) ELSE GE("A", e, k)>>) EXCEPT !.y = <<Int32>>, !.b = <<GB(R(1..3), d - 1, [Declare(k, x, "I") EXCEPT !.brk = TRUE])>>], k >>
    [] o = "switch" -> << SwitchOn(d - 1, k), k >>
Through(n, d, k) == FoldLeft(LAMBDA acc, m : LET s == TLCEval(GS(d, acc[2])) IN <<Append(acc[1], s[1]), s[2]>>, << <<>>, k >>, [m \in 1..n |-> m])
GB(n, d, k) == Through(n, d, k)[1]
GBs(n, d, k) == TLCEval([m \in 1..n |-> GB(R(0..2), d, k)])

\* ---------------------------------------------------------------- functions
ParamsOf(f) == LET s == Sigs[f] IN [m \in DOMAIN s.ps |-> [x |-> s.ps[m].x, y |-> T[s.ps[m].t], out |-> s.ps[m].out, opt |-> s.ps[m].opt]]
Prologue == << Let("i", "I", <<Nativ("Obs", <<IntN(0)>>)>>, FALSE), Let("o", "O", <<NodeS("new", <<R({"A", "B"})>>, <<>>)>>, TRUE),
               Let("v", "P", <<>>, TRUE), Let("r", "A", <<[NodeS("arr", <<>>, <<Nativ("Obs", <<IntN(1)>>), IntN(4)>>) EXCEPT !.y = <<Int32>>]>>, FALSE), Let("w", "W", <<Var("o")>>, TRUE) >>
Body(f, can, size, depth, added) ==
  LET s == Sigs[f] main == f = "Main" vs == [m \in DOMAIN s.ps |-> <<s.ps[m].x, s.ps[m].t>>]
      k == [vars |-> vs \o (IF main THEN << <<"i", "I">>, <<"o", "O">>, <<"v", "P">>, <<"r", "A">>, <<"w", "W">> >> ELSE <<>>), can |-> can,
            cls |-> IF "static" \in Range(s.quals) THEN "" ELSE s.cls, ret |-> s.r, brk |-> FALSE, added |-> added]
      b == TLCEval(Through(size, depth, k)) IN
  (IF main THEN Prologue ELSE <<>>) \o b[1] \o (IF s.r # "" /\ R(1..4) # 1 THEN <<Returning(1, b[2])>> ELSE <<>>)
FnWith(f, can, size, depth, added) == LET s == Sigs[f] IN [cls |-> s.cls, name |-> s.name, quals |-> s.quals, params |-> ParamsOf(f), ret |-> IF s.r = "" THEN <<>> ELSE <<T[s.r]>>,
                                                  body |-> Body(f, can, size, depth, added), native |-> FALSE]
FnOf(f, can, size, depth) == FnWith(f, can, size, depth, FALSE)
Meth == [A |-> [M |-> "A.M", N |-> "A.N", K |-> "A.K", Poke |-> "A.Poke"], B |-> [M |-> "B.M", N |-> "A.N", K |-> "A.K", L |-> "B.L", Poke |-> "A.Poke"]]
\* a method may be called where every function it leads to comes earlier
CanCall(n) == ({Order[m] : m \in 1..(n - 1)} \ (IF n <= 10 THEN {"A.M"} ELSE {"B.M"})) \cup (IF n = 10 THEN {"A.M"} ELSE {})
Program(size, depth) ==
  LET fs == TLCEval([n \in DOMAIN Order |-> FnOf(Order[n], CanCall(n), IF Order[n] = "Main" THEN size ELSE R(0..2), IF Order[n] = "Main" THEN depth ELSE 1)]) IN
  [fns |-> [f \in Range(Order) |-> fs[CHOOSE n \in DOMAIN Order : Order[n] = f]] @@ Natives @@ WorldNatives, classes |-> Classes, meth |-> Meth, enums |-> Enums]

\* ---------------------------------------------------------------- files
EnumToks == <<"enum", "E", "{">> \o FlattenSeq([m \in DOMAIN Enums.E |-> <<Enums.E[m].x, "=", ToString(Enums.E[m].n), ",">>]) \o <<"}">>
Method(P, cls) == LET ks == SelectSeq(Order \o <<"A.Poke">>, LAMBDA f : P.fns[f].cls = cls) IN [m \in DOMAIN ks |-> P.fns[ks[m]]]
Entries(P) == << EnumToks, ClassToks("A", P.classes.A, Method(P, "A")), ClassToks("B", P.classes.B, Method(P, "B")), ClassToks("P", P.classes.P, <<>>) >>
              \o [m \in 1..5 |-> FnToks(P.fns[Order[m]])] \o << FnToks(P.fns["Main"]) >>
              \o << FnToks(P.fns["SeeP"]), FnToks(P.fns["SeeO"]), FnToks(P.fns["SeeW"]), FnToks(P.fns["SeeE"]) >>
RECURSIVE Shuffle(_)
Shuffle(s) == IF Len(s) <= 1 THEN s ELSE LET n == R(1..Len(s)) IN <<s[n]>> \o Shuffle(RemoveAt(s, n))
\* everything in one file or in two, in any order
Sources(P) == LET es == TLCEval(Shuffle(Entries(P))) n == R({0, 0, 4, 7}) IN IF n = 0 THEN << FlattenSeq(es) >> ELSE << FlattenSeq(SubSeq(es, 1, n)), FlattenSeq(SubSeq(es, n + 1, Len(es))) >>
\* what the compiler names the source line of
Placed == <<"A", "B", "P", "Sum", "Inc", "Arr", "Fill", "K", "N", "T", "M", "L", "Main", "SeeP", "SeeO">>
Case(P) == [k |-> "prog", want |-> [classes |-> <<>>, touched |-> << <<>> >>, places |-> Placed], stages |-> << Sources(P) >>, prog |-> P]

\* ---------------------------------------------------------------- what every program can use
OpFn(name, ps, r) == <<"native", "func", "Operator" \o name, "(">> \o Sep(ps, ",") \o <<")", "->", r, ";">>
A2(t) == << <<"a", ":">> \o t, <<"b", ":">> \o t >>
Prelude == <<"native", "class", "IScriptable", "{", "}">> \o FlattenSeq([m \in 1..Cardinality(ArithOps) |-> OpFn(SetToSeq(ArithOps)[m], A2(<<"Int32">>), "Int32")])
        \o FlattenSeq([m \in 1..Cardinality(RelOps) |-> OpFn(SetToSeq(RelOps)[m], A2(<<"Int32">>), "Bool")])
        \o FlattenSeq([m \in 1..Cardinality(AsgOps) |-> OpFn("Assign" \o SetToSeq(AsgOps)[m], << <<"out", "a", ":", "Int32">>, <<"b", ":", "Int32">> >>, "Int32")])
        \o OpFn("Add", A2(<<"script_ref", "~", "<", "String", ">">>), "String") \o OpFn("LogicAnd", A2(<<"Bool">>), "Bool") \o OpFn("LogicOr", A2(<<"Bool">>), "Bool")
        \o OpFn("LogicNot", << <<"a", ":", "Bool">> >>, "Bool") \o OpFn("Neg", << <<"a", ":", "Int32">> >>, "Int32") \o OpFn("BitNot", << <<"a", ":", "Int32">> >>, "Int32")
        \o FlattenSeq([m \in 1..Cardinality(DOMAIN Natives) |-> FnToks(Natives[SetToSeq(DOMAIN Natives)[m]]) \o <<";">>])
EnvLine == [k |-> "env", prelude |-> Prelude, lazy |-> <<"OperatorLogicAnd;BoolBool;Bool", "OperatorLogicOr;BoolBool;Bool">>,
            rename |-> << <<"OperatorAdd;script_ref<String>script_ref<String>;String", AddStr>> >>]
ASSUME PrintT("CASE " \o ToJson(EnvLine))
InitR == \E n \in 1..Rounds : \E P \in {TLCEval(Program(R(1..6), R(1..3)))} : theCase = TLCEval(Case(P))
Next == FALSE /\ UNCHANGED theCase
EmitCase == PrintT("CASE " \o ToJson(theCase))
=============================================================================
