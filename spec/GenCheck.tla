------------------------------ MODULE GenCheck ------------------------------
(***************************************************************************)
(* Programs of GenProg with mistakes in them, of the kinds people make: a  *)
(* value of the wrong type, a name that is none, arguments too many or too *)
(* few, a forgotten return or break, a changed signature.  What is said of *)
(* each by RsCheck is what JudgeCheck holds the compiler to.               *)
(***************************************************************************)
EXTENDS GenProg, RsCheck

\* ---------------------------------------------------------------- mistakes
\* something else; not a number where x says that a dot follows
Other(x) ==
  LET o == R(1..20) IN
  CASE o \in 1..2 -> IF x THEN Var("nope") ELSE IntN(3)
    [] o = 3 -> NodeS("str", <<"x">>, <<>>)
    [] o = 4 -> BoolN(1)
    [] o = 5 -> Node("null")
    [] o = 6 -> NodeS("new", <<R({"A", "B"})>>, <<>>)
    [] o = 7 -> NodeS("struct", <<"P">>, <<IntN(1), IntN(2), BoolN(1)>>)
    [] o = 8 -> [NodeS("enum", <<"E", "X">>, <<>>) EXCEPT !.n = 0]
    [] o = 9 -> NodeS("call", <<"Note", "Note">>, <<IntN(1)>>)
    [] o = 10 -> NodeS("arr", <<>>, IF R(1..3) = 1 THEN <<>> ELSE <<IntN(1), R({IntN(2), NodeS("str", <<"x">>, <<>>)})>>)
    [] o = 11 -> Node("this")
    [] o = 12 -> Var(R({"nope", "Sum", "A", "E"}))
    [] o = 13 -> NodeS("call", <<"Nope", "Nope">>, <<IntN(1)>>)
    [] o = 14 -> NodeS("call", <<"Sum", "Sum">>, R({<<>>, <<IntN(1)>>, <<IntN(1), IntN(2), IntN(3)>>, <<NodeS("str", <<"x">>, <<>>), IntN(2)>>, <<BoolN(1), IntN(2)>>}))
    [] o = 15 -> NodeS("cond", <<>>, <<Nativ("Test", <<IntN(1)>>), IntN(1), R({IntN(2), NodeS("str", <<"x">>, <<>>)})>>)
    [] o = 16 -> NodeS("fun", <<"ToVariant">>, <<IntN(1)>>)
    [] o = 17 -> NodeS("scall", <<"A.T", "A", R({"T", "M", "K"})>>, <<NodeS("struct", <<"P">>, <<IntN(1), IntN(2), BoolN(0)>>), NodeS("str", <<"">>, <<>>)>>)
    [] o = 18 -> NodeS("mcall", <<"T", R({"T", "M", "L"})>>, <<NodeS("new", <<"A">>, <<>>), IntN(1)>>)
    [] o = 19 -> [NodeS("part", <<"a">>, <<NodeS("struct", <<"P">>, <<IntN(1), IntN(2), BoolN(0)>>)>>) EXCEPT !.n = 1]
    [] o = 20 -> Fun(R({"EnumInt", "ArraySize", "IsDefined", "VariantTypeName"}), <<R({Var("i"), Var("r"), Var("o"), Node("null"), IntN(1)})>>, <<>>)
\* the same node, slightly wrong
Slip(e, x) ==
  LET less == [e EXCEPT !.a = SubSeq(@, 1, Len(@) - 1)] more == [e EXCEPT !.a = Append(@, IntN(1))] o == R(1..4) IN
  CASE e.k = "var" -> Var(R({e.s[1] \o "x", "i", "s", "o", "r", "v", "E"}))
    [] e.k = "call" -> IF o = 1 /\ e.a # <<>> THEN less ELSE IF o = 2 THEN more ELSE IF o = 3 THEN [e EXCEPT !.s[2] = R({"Nope", "Sum", "Obs", "Inc"})] ELSE [e EXCEPT !.a = Reverse(@)]
    [] e.k = "mcall" -> IF o = 1 /\ Len(e.a) > 1 THEN less ELSE IF o = 2 THEN more ELSE [e EXCEPT !.s[2] = R({"Nope", "M", "N", "K", "T", "L"})]
    [] e.k = "scall" -> IF o = 1 /\ e.a # <<>> THEN less ELSE IF o = 2 THEN [e EXCEPT !.s[3] = R({"M", "K", "Nope"})] ELSE [e EXCEPT !.s[2] = R({"B", "E", "Nope", "P"})]
    [] e.k = "super" -> IF o = 1 THEN more ELSE [e EXCEPT !.s[2] = R({"Nope", "N", "K"})]
    [] e.k \in {"field", "part"} -> NodeS("field", <<R({"nope", "n", "m", "a", "s", "X", "w"})>>, e.a)
    [] e.k \in {"new", "struct"} -> IF o = 1 THEN more ELSE IF o = 2 /\ e.a # <<>> THEN less ELSE [e EXCEPT !.s[1] = R({"A", "B", "P", "E", "Nope"})]
    [] e.k = "enum" -> [e EXCEPT !.s = R({<<"E", "Q">>, <<"F", "X">>, <<"A", "n">>})]
    [] e.k = "as" -> [e EXCEPT !.s[1] = R({"A", "P", "E", "Int32", "Nope"})]
    [] e.k = "fun" -> IF o = 1 /\ Len(e.a) > 1 THEN less ELSE IF o = 2 THEN more ELSE IF o = 3 /\ e.y # <<>> THEN [e EXCEPT !.y = R({<<>>, <<Int32>>, <<T["E"]>>, <<ClassT("Nope")>>})]
                      ELSE [e EXCEPT !.s[1] = R(ArrayOps \cup {"ToString", "EnumInt", "IsDefined"})]
    [] e.k \in {"bin", "un"} -> [e EXCEPT !.s[1] = IF e.k = "un" THEN R({"Neg", "LogicNot", "BitNot"}) ELSE R({"Add", "Less", "Equal", "LogicAnd", "Or"})]
    [] e.k \in {"cond", "arr", "elem", "interp"} /\ Len(e.a) > 1 /\ e.k # "interp" -> [e EXCEPT !.a = Reverse(@)]
    [] OTHER -> Other(x)
Dotted(e, m) == m = 1 /\ e.k \in {"mcall", "field", "part", "elem", "as"}
RECURSIVE ME(_, _), MS(_), MB(_)
ME(e, x) == IF e.a # <<>> /\ R(1..3) # 1 THEN LET m == R(DOMAIN e.a) IN [e EXCEPT !.a[m] = TLCEval(ME(@, Dotted(e, m)))]
            ELSE IF R(1..3) = 1 THEN (LET o == R(1..3) IN IF o = 1 THEN NodeS("elem", <<>>, <<IF e.k = "int" THEN Var("r") ELSE e, IntN(1)>>) ELSE IF e.k = "int" THEN Other(x) ELSE NodeS("field", <<R({"n", "a", "nope"})>>, <<e>>))
            ELSE IF R(1..2) = 1 THEN Slip(e, x) ELSE Other(x)
SomeTypes == {Int32, Bool, Str, ArrOf(Int32), ArrOf(Str), StructT("P"), RefTo("A"), RefTo("B"), WRefTo("A"), WRefTo("B"), EnumT("E"), VariantT, Prim("Float"), ClassT("Nope"), ClassT("A"), RefTo("Nope"), ScriptRef(Str)}
\* a statement with a mistake: none, one or more statements
MS(s) ==
  LET inner == {m \in DOMAIN s.b : s.b[m] # <<>>} o == R(1..6) IN
  IF inner # {} /\ R(1..3) # 1 THEN LET m == R(inner) IN << [s EXCEPT !.b[m] = TLCEval(MB(@))] >>
  ELSE CASE s.k = "let" /\ o = 1 -> << [s EXCEPT !.n = 1, !.y = <<R(SomeTypes)>>] >>
         [] s.k = "let" /\ o = 2 -> << [s EXCEPT !.n = 0] >>
         [] s.k = "let" /\ o = 3 -> << [s EXCEPT !.s[1] = "unused"] >>
         [] s.k = "return" /\ o = 1 -> << [s EXCEPT !.a = IF @ = <<>> THEN <<Other(FALSE)>> ELSE <<>>] >>
         [] s.k = "switch" /\ o <= 3 /\ (\E m \in DOMAIN s.b : Ends0(s.b[m]) /\ s.b[m] # <<>>) -> LET m == R({m \in DOMAIN s.b : Ends0(s.b[m]) /\ s.b[m] # <<>>}) IN << [s EXCEPT !.b[m] = SubSeq(@, 1, Len(@) - 1)] >>
         [] o = 4 /\ R(1..2) = 1 -> <<>>
         [] o = 5 /\ R(1..2) = 1 -> << Node("break"), s >>
         [] o = 6 /\ R(1..2) = 1 -> << s, Do(TLCEval(ME(Other(FALSE), FALSE))) >>
         [] s.a = <<>> -> <<s>>
         [] OTHER -> LET m == R(DOMAIN s.a) IN << [s EXCEPT !.a[m] = TLCEval(ME(@, FALSE))] >>
MB(b) == IF b = <<>> THEN <<Do(Other(FALSE))>> ELSE LET m == R(DOMAIN b) IN SubSeq(b, 1, m - 1) \o TLCEval(MS(b[m])) \o SubSeq(b, m + 1, Len(b))
\* a signature that has changed
MF(f) == LET o == R(1..4) IN
  CASE o = 1 /\ f.params # <<>> -> LET m == R(DOMAIN f.params) IN [f EXCEPT !.params[m].y = R({Int32, Str, RefTo("B"), T["P"], ArrOf(Int32)})]
    [] o = 2 /\ f.params # <<>> -> LET m == R(DOMAIN f.params) IN [f EXCEPT !.params = RemoveAt(@, m)]
    [] o = 3 -> [f EXCEPT !.ret = IF @ = <<>> THEN <<Int32>> ELSE R({<<>>, <<Str>>, <<Int32>>, <<RefTo("A")>>})]
    [] OTHER -> [f EXCEPT !.params = Append(@, [x |-> "extra", y |-> Int32, out |-> FALSE, opt |-> R({TRUE, FALSE})])]
Mistake(P, f) == IF R(1..8) = 1 /\ f # "Main" THEN [P EXCEPT !.fns[f] = MF(@)] ELSE [P EXCEPT !.fns[f].body = MB(@)]
\* mostly where most of the program is
Spoiled(P, n) == FoldLeft(LAMBDA acc, m : TLCEval(Mistake(acc, IF R(1..2) = 1 THEN "Main" ELSE R(Range(Order)))), P, [m \in 1..n |-> m])

\* ---------------------------------------------------------------- where things are
\* an entry: its tokens, and its functions, each with the lines before it
ClassEntry(P, cls) ==
  LET ks == SelectSeq(Order \o <<"A.Poke">>, LAMBDA f : P.fns[f].cls = cls) fns == [m \in DOMAIN ks |-> P.fns[ks[m]]]
      toks == ClassToks(cls, P.classes[cls], fns) head == Lines(ClassToks(cls, P.classes[cls], <<>>)) - 1
  IN [toks |-> toks, fns |-> [m \in DOMAIN ks |-> <<ks[m], head + FoldLeft(LAMBDA acc, o : acc + Lines(FnToks(fns[o])), 0, [o \in 1..(m - 1) |-> o])>>]]
FnEntry(P, f) == [toks |-> FnToks(P.fns[f]), fns |-> << <<f, 0>> >>]
Plain(toks) == [toks |-> toks, fns |-> <<>>]
Placeable(P) == << Plain(EnumToks), ClassEntry(P, "A"), ClassEntry(P, "B"), Plain(ClassToks("P", P.classes.P, <<>>)) >>
              \o [m \in 1..5 |-> FnEntry(P, Order[m])] \o << FnEntry(P, "Main") >> \o [m \in 1..4 |-> Plain(FnToks(P.fns[<<"SeeP", "SeeO", "SeeW", "SeeE">>[m]]))]
Laid(es, file) == FoldLeft(LAMBDA acc, e : [line |-> acc.line + Lines(e.toks), at |-> acc.at \o [m \in DOMAIN e.fns |-> <<e.fns[m][1], <<file, acc.line + e.fns[m][2]>> >>]], [line |-> 1, at |-> <<>>], es).at
WithPlaces(P) ==
  LET es == TLCEval(Shuffle(Placeable(P))) n == R({0, 0, 4, 7})
      files == IF n = 0 THEN <<es>> ELSE <<SubSeq(es, 1, n), SubSeq(es, n + 1, Len(es))>>
      at == TLCEval(FlattenSeq([m \in DOMAIN files |-> Laid(files[m], m)])) IN
  [k |-> "check", sources |-> [m \in DOMAIN files |-> FlattenSeq([o \in DOMAIN files[m] |-> files[m][o].toks])],
   prog |-> P @@ [at |-> [f \in Range(Order) |-> (CHOOSE x \in Range(at) : x[1] = f)[2]]]]
InitC == \E n \in 1..Rounds : \E P \in {TLCEval(Spoiled(Program(R(1..5), R(1..3)), R({0, 1, 1, 1, 2, 3})))} : theCase = TLCEval(WithPlaces(P))
=============================================================================
