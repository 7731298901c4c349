------------------------------- MODULE GenText -------------------------------
(* Expressions in which operators, conversions and literals meet in every way, as bytecode. *)
EXTENDS GenExpr

OpTree(name, kids) == CallTree("o." \o name, kids, {}, 0)
Conv(op, x) == Tr(I(op, IF op = "AsRef" THEN <<DefIx("t.srInt")>> ELSE <<>>), <<x>>)
Minus(v) == Tr(I("I32Const", <<v>>), <<>>)
ThisT == Tr(I("This", <<>>), <<>>)
FieldOf(x) == Tr(I("StructField", <<DefIx("f.s")>>), <<x>>)
CastOf(x) == Tr(I("DynamicCast", <<DefIx("c.Foo"), "0">>), <<x>>)
ElemOf(x, y) == Tr(I("ArrayElement", <<DefIx("t.aInt")>>), <<x, y>>)
CondOf(x, y, z) == Tr(I("Conditional", <<0, 0>>), <<x, y, z>>)
MethodOn(x, a) == Ctx(x, VirtTree("Over;Int32", a, {}, 0))

\* what can stand below something else
LitForms == {Minus("-3"), Minus("4"), Minus("-2147483648"), Tr(I("I64Const", <<"-9223372036854775808">>), <<>>), Tr(I("F32Const", <<"-0.25">>), <<>>), ThisT,
             Tr(I("Null", <<>>), <<>>), Tr(I("StringConst", <<"2">>), <<>>), Tr(I("EnumConst", <<DefIx("e.E"), DefIx("e.A")>>), <<>>)}
OpForms == {OpTree(BinNames[n], <<L1, L2>>) : n \in DOMAIN BinNames} \cup {OpTree(UnNames[n], <<L2>>) : n \in DOMAIN UnNames}
RestForms == {CondOf(L1, L2, L3), CastOf(L3), ElemOf(L2, L1), FieldOf(L2), MethodOn(L3, <<L1>>), CallTree("g.Plain", <<L1, L2>>, {}, 0), CallTree("g.Cast", <<L1>>, {}, 0),
              Tr(I("Construct", <<"2", DefIx("c.S")>>), <<L1, L3>>), Conv("Deref", L3), CallTree("s.Make", <<L2>>, {}, 0), Tr(I("New", <<DefIx("c.Foo")>>), <<>>)}
Below == LitForms \cup OpForms \cup RestForms
\* x in every place below an operator
Above(x) == {OpTree(BinNames[n], <<x, L3>>) : n \in DOMAIN BinNames} \cup {OpTree(BinNames[n], <<L3, x>>) : n \in DOMAIN BinNames}
            \cup {OpTree(UnNames[n], <<x>>) : n \in DOMAIN UnNames} \cup {CondOf(x, L1, L2), CondOf(L1, x, L2), CondOf(L1, L2, x)}
            \cup {CastOf(x), ElemOf(x, L1), ElemOf(L2, x), FieldOf(x), MethodOn(x, <<L1>>), MethodOn(L3, <<x, x>>), CallTree("g.Plain", <<x, x>>, {}, 0),
                  Tr(I("Construct", <<"2", DefIx("c.S")>>), <<x, x>>), Ctx(x, Tr(I("ObjectField", <<DefIx("f.foo")>>), <<>>)),
                  Tr(I("Assign", <<>>), <<FieldOf(L2), x>>), Tr(I("Assign", <<>>), <<ElemOf(x, L1), L1>>), Tr(I("FromVariant", <<DefIx("t.arFoo")>>), <<x>>)}
Convs == {"WeakRefToRef", "RefToWeakRef", "AsRef"}

Nums == V("F32Const", {"0.001", "0.1", "16777216", "0.0000001", "123456.79", "100000000000000000000", "3.4028235e38", "1e-45", "-7.125"})
        \cup V("F64Const", {"0.001", "0.1", "9007199254740993", "1e300", "5e-324", "-1234.5678"})
        \cup V("U64Const", {"0", "5", "4294967296", "18446744073709551615"}) \cup V("I64Const", {"0", "-1", "4294967296"}) \cup LeafTrees

TCase(fn, w, e0) == LET e == TLCEval(e0) IN [k |-> "expr", fn |-> DefIx(fn), locals |-> <<>>, code |-> Wrap(w, e)]
Uses(e) == CASE e.i.op = "Assign" -> "stmt" [] OTHER -> "ret"
InitLit == \E e \in Nums, w \in {"stmt", "ret"} : c = TCase("m.Over", w, e)
InitPairs == \E x \in Below : \E e \in Above(x) : c = TCase("m.Over", Uses(e), e)
InitConv == \E cv \in Convs, x \in OpForms \cup {CondOf(L1, L2, L3), CastOf(L3), Minus("-3")} : \E e \in Above(Conv(cv, x)) : c = TCase("m.Over", Uses(e), e)
\* three levels and more, at random
BelowSeq == SetToSeq(Below)
RECURSIVE Heap(_)
Heap(d) ==
  IF d = 0 THEN Pick(BelowSeq)
  ELSE LET x == RandomElement(1..8)
           a == Heap(d - 1)
           b == Heap(RandomElement(0..(d - 1)))
       IN CASE x <= 3 -> OpTree(Pick(BinNames), <<a, b>>)
            [] x = 4 -> OpTree(Pick(UnNames), <<a>>)
            [] x = 5 -> OpTree(Pick(BinNames), <<b, a>>)
            [] x = 6 -> LET y == RandomElement(1..3) IN IF y = 1 THEN CondOf(a, b, L1) ELSE IF y = 2 THEN CondOf(b, a, L3) ELSE CondOf(L1, b, a)
            [] x = 7 -> LET y == RandomElement(1..5) IN CASE y = 1 -> CastOf(a) [] y = 2 -> ElemOf(a, b) [] y = 3 -> FieldOf(a) [] y = 4 -> MethodOn(a, <<b>>) [] OTHER -> Conv(RandomElement(Convs), a)
            [] OTHER -> CallTree("g.Plain", <<a, b>>, {}, 0)
InitDeep == \E n \in 1..Rounds : \E e \in {Heap(RandomElement(1..4))} : c = TCase(RandomElement(Fns), "ret", e)
EmitText == PrintT("CASE " \o ToJson(c))
=============================================================================
