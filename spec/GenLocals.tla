----------------------------- MODULE GenLocals ------------------------------
(* Bodies that assign to locals, and mention them, in every order. *)
EXTENDS RsLocals, Json
CONSTANT Rounds
VARIABLE c
Loc(key) == Tr(I("Local", <<DefIx(key)>>), <<>>)
Num(v) == Tr(I("I32Const", <<v>>), <<>>)
Set(x, e) == Tr(I("Assign", <<>>), <<x, e>>)
Call2(x, y) == [i |-> I("InvokeStatic", <<0, "3", DefIx("g.Plain"), "0">>), kids |-> <<x, y>>, sc |-> {}, pad |-> 0]
Fld(x) == Tr(I("StructField", <<DefIx("f.s")>>), <<x>>)
Elt(x, y) == Tr(I("ArrayElement", <<DefIx("t.aInt")>>), <<x, y>>)
LKeys == {"l.x", "l.y", "l.z"}
ParamA == Tr(I("Param", <<DefIx("p.a")>>), <<>>)

\* values that mention a local in every place a value can
Values(xs) == {Num("4"), ParamA} \cup xs \cup {Fld(x) : x \in xs} \cup {Call2(Num("4"), x) : x \in xs} \cup {Elt(x, Num("4")) : x \in xs}
Around(x) == {Elt(ParamA, x), Elt(x, ParamA), Tr(I("Conditional", <<0, 0>>), <<x, Num("1"), Num("2")>>), Tr(I("Conditional", <<0, 0>>), <<Num("1"), x, Num("2")>>),
              Tr(I("Conditional", <<0, 0>>), <<Num("1"), Num("2"), x>>), Tr(I("DynamicCast", <<DefIx("c.Foo"), "0">>), <<x>>), Call2(x, Num("1")), Call2(Num("1"), x),
              Tr(I("Construct", <<"2", DefIx("c.S")>>), <<Num("1"), x>>), Tr(I("Construct", <<"2", DefIx("c.S")>>), <<x, Num("1")>>),
              Tr(I("Context", <<0>>), <<x, Tr(I("ObjectField", <<DefIx("f.foo")>>), <<>>)>>),
              Tr(I("Context", <<0>>), <<ParamA, [i |-> I("InvokeVirtual", <<0, "9", NameIx("Over;Int32"), "2">>), kids |-> <<Num("1"), x>>, sc |-> {}, pad |-> 0]>>),
              Tr(I("Context", <<0>>), <<ParamA, [i |-> I("InvokeVirtual", <<0, "9", NameIx("Over;Int32"), "2">>), kids |-> <<x, Num("1")>>, sc |-> {}, pad |-> 0]>>),
              [i |-> I("InvokeVirtual", <<0, "9", NameIx("Over;Int32"), "2">>), kids |-> <<x, Num("1")>>, sc |-> {}, pad |-> 0],
              Tr(I("Context", <<0>>), <<x, [i |-> I("InvokeVirtual", <<0, "9", NameIx("Over;Int32"), "2">>), kids |-> <<Num("1")>>, sc |-> {}, pad |-> 0]>>),
              Tr(I("ArraySize", <<DefIx("t.aInt")>>), <<x>>), [i |-> I("InvokeStatic", <<0, "3", DefIx("o.OperatorAdd"), "0">>), kids |-> <<Num("1"), x>>, sc |-> {}, pad |-> 0],
              [i |-> I("InvokeStatic", <<0, "3", DefIx("o.OperatorNeg"), "0">>), kids |-> <<x>>, sc |-> {}, pad |-> 0], Tr(I("WeakRefToRef", <<>>), <<x>>), Fld(x), Set(x, Num("1"))}
Step == {Exp(Set(Loc(k), v)) : k \in {"l.x", "l.y"}, v \in {Num("4"), Loc("l.x"), Loc("l.y")}}
        \cup {Exp(Set(Fld(Loc(k)), Num("5"))) : k \in {"l.x", "l.y"}} \cup {Exp(Set(ParamA, Loc(k))) : k \in {"l.x", "l.y"}}
        \cup {Exp(Call2(Num("4"), Num("5"))), Exp(Loc("l.x")), IfT(Loc("l.y"), <<Exp(Set(Loc("l.x"), Num("6")))>>), IfT(ParamA, <<Exp(Set(Loc("l.y"), Loc("l.x")))>>)}
Case(keys, b) == [k |-> "locals", fn |-> DefIx("m.Over"), locals |-> [n \in DOMAIN keys |-> DefIx(keys[n])], code |-> Many(b), keys |-> keys,
                  want |-> [n \in DOMAIN b |-> StAst("m.Over", b[n])]]
ASSUME PrintT("CASE " \o ToJson([k |-> "env", pool |-> EnvPool]))
Lists == {<<>>, <<"l.x">>, <<"l.y", "l.x">>, <<"l.x", "l.y", "l.z">>, <<"l.z", "l.b", "l.y", "l.x">>, <<"l.x", "l.x2">>, <<"l.x2", "l.y", "l.x">>}
\* every body of up to three statements, with both locals
Init3 == \E n \in 0..3 : \E b \in [1..n -> Step] : \E keys \in {<<"l.x", "l.y">>, <<"l.y", "l.x", "l.z">>} : c = Case(keys, b)
\* a local mentioned in every place before, in and after its declaration
InitAround == \E v \in Around(Loc("l.x")) : \E b \in { <<Exp(Set(Loc("l.x"), v))>>, <<Exp(Set(Loc("l.y"), v)), Exp(Set(Loc("l.x"), Num("4")))>>,
     <<Exp(Set(Loc("l.x"), Num("4"))), Exp(Set(Loc("l.y"), v))>>, <<Exp(Set(Fld(v), Num("3"))), Exp(Set(Loc("l.x"), Num("4")))>>, <<Exp(v), Exp(Set(Loc("l.x"), Num("4")))>>,
     <<IfT(v, <<>>), Exp(Set(Loc("l.x"), Num("4")))>> } :
     c = Case(<<"l.y", "l.x">>, b)
\* which locals there are does not depend on what is assigned
InitLists == \E keys \in Lists : \E b \in { <<>>, <<Exp(Set(Loc("l.x"), Num("4")))>>, <<Exp(Set(Loc("l.z"), Loc("l.b"))), Exp(Set(Loc("l.b"), Num("4")))>> } : c = Case(keys, b)
\* locals of one name and two types: known to come out as one
InitSame == c = Case(<<"l.x", "l.xs", "l.z">>, <<IfT(ParamA, <<Exp(Set(Loc("l.x"), Num("4")))>>), Exp(Set(Loc("l.xs"), Loc("l.z")))>>)
StepSeq == SetToSeq(Step \cup UNION {{Exp(Set(Loc(l), v)) : v \in Values({Loc("l.x"), Loc("l.y"), Loc("l.z")})} : l \in LKeys})
InitR == \E n \in 1..Rounds : \E b \in {[m \in 1..RandomElement(3..8) |-> StepSeq[RandomElement(1..Len(StepSeq))]]} : c = Case(<<"l.z", "l.x", "l.y">>, b)
Next == FALSE /\ UNCHANGED c
EmitCase == PrintT("CASE " \o ToJson(c))
=============================================================================
