------------------------------ MODULE GenExpr -------------------------------
(* Expressions as bytecode trees, each with the source it must be read as. *)
EXTENDS RsLang, Json
CONSTANT Rounds     \* how many random deep trees
VARIABLE c

V(op, xs) == {Tr(I(op, <<x>>), <<>>) : x \in xs}
LeafTrees ==
  {Tr(I(op, <<>>), <<>>) : op \in {"Null", "WeakRefNull", "I32One", "I32Zero", "TrueConst", "FalseConst", "This"}}
  \cup V("I8Const", {"0", "-1", "127", "-128"}) \cup V("I16Const", {"300", "-32768"}) \cup V("I32Const", {"0", "7", "-1", "2147483647", "-2147483648"})
  \cup V("I64Const", {"0", "-5", "9223372036854775807", "-9223372036854775808"}) \cup V("U8Const", {"0", "255"}) \cup V("U16Const", {"65535"})
  \cup V("U32Const", {"1", "4294967295"}) \cup V("U64Const", {"1", "18446744073709551615"}) \cup V("F32Const", {"1.5", "0", "-0.25", "0.125"}) \cup V("F64Const", {"1.5", "-3", "0.001"})
  \cup V("StringConst", {"0", "1", "2", "3", "4", "5"}) \cup V("NameConst", {"0", "1", "3"}) \cup V("TweakDbIdConst", {"0", "1"}) \cup V("ResourceConst", {"0", "1"})
  \cup {Tr(I("EnumConst", <<DefIx("e.E"), DefIx(m)>>), <<>>) : m \in {"e.A", "e.B"}}
  \cup {Tr(I("Local", <<DefIx(k)>>), <<>>) : k \in {"l.x", "l.y"}} \cup {Tr(I("Param", <<DefIx(k)>>), <<>>) : k \in {"p.a", "p.b"}}
  \cup {Tr(I("ObjectField", <<DefIx("f.x")>>), <<>>), Tr(I("New", <<DefIx("c.Foo")>>), <<>>)}

L1 == Tr(I("I32Const", <<"11">>), <<>>)
L2 == Tr(I("Local", <<DefIx("l.x")>>), <<>>)
L3 == Tr(I("Param", <<DefIx("p.b")>>), <<>>)

\* operand values of the operators (not the operands that are expressions)
ArgsOf(op) == CASE op \in {"StructField"} -> {<<DefIx("f.s")>>, <<DefIx("f.x")>>}
                [] op = "DynamicCast" -> {<<DefIx("c.Foo"), "0">>, <<DefIx("t.arFoo"), "1">>}
                [] op = "I32ToEnum" -> {<<DefIx("e.E"), "4">>, <<DefIx("t.E"), "0">>}
                [] op = "EnumToI32" -> {<<DefIx("e.E"), "4">>}
                [] op = "FromVariant" -> {<<DefIx("t.Int32")>>, <<DefIx("t.arFoo")>>, <<DefIx("t.wFoo")>>}
                [] op = "Conditional" -> {<<0, 0>>}
                [] op = "Context" -> {<<0>>}
                [] op = "Construct" -> {<<NumText[n], DefIx("c.S")>> : n \in 0..3}
                [] op \in DOMAIN KindsOf /\ KindsOf[op] = <<>> -> {<<>>}
                [] OTHER -> {<<DefIx("t.aInt")>>}
Ops2 == (DOMAIN Intrinsics) \cup {"Assign", "ArrayElement", "StaticArrayElement", "StructField", "DynamicCast", "Conditional", "Construct"}
FunKeys == {"m.Over", "m.BarOver", "m.Bar", "m.Get", "s.Make", "s.Over", "g.Plain", "g.Over", "g.Cast", "g.CastArr", "g.CastLike", "o.OperatorAdd", "o.OperatorLogicAnd", "o.OperatorNeg"}
CallTree(key, kids, sc, pad) == [i |-> I("InvokeStatic", <<0, "3", DefIx(key), "0">>), kids |-> kids, sc |-> sc, pad |-> pad]
VirtTree(name, kids, sc, pad) == [i |-> I("InvokeVirtual", <<0, "9", NameIx(name), "2">>), kids |-> kids, sc |-> sc, pad |-> pad]
Virtuals == {"Over;Int32", "Get;Int32Int32", "Other;"}

\* S: candidate operands, F(n): a family of operand lists of length n
OpTrees(F(_)) == UNION {{Tr(I(op, a), ks) : a \in ArgsOf(op), ks \in F(IF op = "Construct" THEN 0 ELSE Arity(I(op, <<"0", "0">>)))} : op \in Ops2 \ {"Construct"}}
                 \cup UNION {{Tr(I("Construct", <<NumText[n], DefIx("c.S")>>), ks) : ks \in F(n)} : n \in 0..3}
CallTrees(F(_), n) ==
  {CallTree(k, ks, sc, pad) : k \in FunKeys, ks \in F(n), sc \in {{}} \cup {{m} : m \in 1..n}, pad \in {0, 2}}
  \cup {VirtTree(k, ks, sc, pad) : k \in Virtuals, ks \in F(n), sc \in {{}} \cup {{m} : m \in 1..n}, pad \in {0, 1}}
\* what may follow a context: a field or a call
CtxTails(F(_), n) == {Tr(I("ObjectField", <<DefIx("f.foo")>>), <<>>)} \cup
  {CallTree(k, ks, {}, 0) : k \in {"m.Over", "m.BarOver", "m.Get"}, ks \in F(n)} \cup {VirtTree(k, ks, {}, 0) : k \in Virtuals, ks \in F(n)}
Ctx(obj, t) == Tr(I("Context", <<0>>), <<obj, t>>)

\* operands one, two, three leaves
FixL(n) == {SubSeq(<<L1, L2, L3>>, 1, n), SubSeq(<<L3, L1, L2>>, 1, n)}
Depth1 == OpTrees(FixL) \cup UNION {CallTrees(FixL, n) : n \in 0..3} \cup {Ctx(o, t) : o \in {L3, Tr(I("This", <<>>), <<>>)}, t \in UNION {CtxTails(FixL, n) : n \in 0..2}}
\* every operator with every operator below it, in every position
Mid == {CallTree("g.Plain", <<L1, L2>>, {1}, 1), CallTree("m.BarOver", <<L1>>, {}, 0), Ctx(L3, Tr(I("ObjectField", <<DefIx("f.foo")>>), <<>>)), Tr(I("Conditional", <<0, 0>>), <<L1, L2, L3>>),
        Tr(I("Construct", <<"2", DefIx("c.S")>>), <<L1, L3>>), Tr(I("DynamicCast", <<DefIx("c.Foo"), "0">>), <<L3>>), Tr(I("ArrayElement", <<DefIx("t.aInt")>>), <<L2, L1>>),
        Tr(I("StructField", <<DefIx("f.s")>>), <<L2>>), Tr(I("Equals", <<DefIx("t.aInt")>>), <<L1, L2>>), VirtTree("Over;Int32", <<L1, L3>>, {2}, 1),
        Ctx(L3, VirtTree("Get;Int32Int32", <<L1>>, {}, 1)), CallTree("s.Make", <<L2>>, {}, 0), CallTree("g.Cast", <<L1>>, {}, 0)}
FixM(n) == UNION {{[SubSeq(<<L1, L2, L3>>, 1, n) EXCEPT ![p] = m] : m \in Mid} : p \in 1..n}
Depth2 == OpTrees(FixM) \cup {CallTree(k, ks, {2}, 0) : k \in {"g.Plain", "m.Over", "m.BarOver", "s.Make"}, ks \in FixM(3)} \cup {Ctx(o, t) : o \in Mid, t \in CtxTails(FixL, 1)}
          \cup {Ctx(L3, t) : t \in CtxTails(FixM, 2)}
\* deep trees at random
LeafSeq == SetToSeq(LeafTrees)
OpSeq == SetToSeq(Ops2)
FunSeq == SetToSeq(FunKeys)
VirtSeq == SetToSeq(Virtuals)
Pick(s) == s[RandomElement(1..Len(s))]
RECURSIVE Rnd(_), RndKids(_, _)
RndKids(n, d) == IF n = 0 THEN <<>> ELSE <<Rnd(IF RandomElement(1..3) = 1 THEN 0 ELSE d - 1)>> \o RndKids(n - 1, d)
Rnd(d) ==
  IF d = 0 THEN Pick(LeafSeq)
  ELSE LET x == RandomElement(1..6)
           n == RandomElement(0..3)
       IN CASE x = 1 -> CallTree(Pick(FunSeq), RndKids(n, d), {RandomElement(1..4)} \cap (1..n), RandomElement(0..2))
            [] x = 2 -> VirtTree(Pick(VirtSeq), RndKids(n, d), {RandomElement(1..4)} \cap (1..n), RandomElement(0..2))
            [] x = 3 -> Ctx(Rnd(d - 1), CASE n = 0 -> Tr(I("ObjectField", <<DefIx("f.x")>>), <<>>)
                                          [] n = 1 -> CallTree("m.BarOver", <<Rnd(d - 1)>>, {}, 0)
                                          [] OTHER -> VirtTree("Over;Int32", <<Rnd(d - 1), Rnd(d - 1)>>, {1}, 1))
            [] OTHER -> LET op == Pick(OpSeq) IN
                 IF op = "Construct" THEN Tr(I(op, <<NumText[n], DefIx("c.S")>>), RndKids(n, d))
                 ELSE Tr(I(op, RandomElement(ArgsOf(op))), RndKids(Arity(I(op, <<"0">>)), d))

Fns == {"m.Over", "g.Main", "m.Bar"}
\* how the expression is used: as a statement, returned, between others
Wrap(w, e) == CASE w = "stmt" -> Flat(e)
                [] w = "ret" -> << I("Return", <<>>) >> \o Flat(e)
                [] w = "two" -> Flat(e) \o << I("Nop", <<>>) >> \o Flat(L1)
WrapAst(w, a) == CASE w = "stmt" -> <<a>> [] w = "ret" -> <<Nd("Return", <<>>, <<a>>)>> [] w = "two" -> <<a, EmptyNode, Const("I32", "11")>>
Case(fn, w, e0) == LET e == TLCEval(e0) IN [k |-> "expr", fn |-> DefIx(fn), locals |-> <<>>, code |-> Wrap(w, e), want |-> WrapAst(w, AstOf(fn, e, <<>>)),
                   inv |-> TreeAt(Flat(e), 1)[2] = Len(Flat(e)) + 1 /\ AstOf(fn, TreeAt(Flat(e), 1)[1], <<>>) = AstOf(fn, e, <<>>)]
ASSUME PrintT("CASE " \o ToJson([k |-> "env", pool |-> EnvPool]))
Void == {CallTree(k, <<>>, {}, 0) : k \in {"m.BarOver"}}
Init1 == \E e \in LeafTrees \cup Depth1, fn \in Fns, w \in {"stmt", "two"} : c = Case(fn, w, e)
Init2 == \E e \in Depth2 : c = Case("m.Over", "ret", e)
InitR == \E n \in 1..Rounds : c = Case(RandomElement(Fns), RandomElement({"stmt", "ret", "two"}), Rnd(RandomElement(2..4)))
Next == FALSE /\ UNCHANGED c
ReadsBack == c.inv
EmitCase == PrintT("CASE " \o ToJson([f \in DOMAIN c \ {"inv"} |-> c[f]]))
=============================================================================
