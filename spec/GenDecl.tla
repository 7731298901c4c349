------------------------------- MODULE GenDecl ------------------------------
(* Pools of definitions of every kind, each attribute varied; what each shows as is judged by JudgeDecl. *)
EXTENDS RsDecl, RsFlow, Json
CONSTANT Rounds
VARIABLE c
Bu == INSTANCE RsBundle

NamesD == << "None", "Int32", "Foo", "C", "Base", "a", "b", "m", "n", "E", "A", "B", "x", "y", "G", "m;Int32", "n;Foo;Float", "G;Int32Int32;Void", "_low", "MixedCase9", "Void" >>
Nm(s) == NumText[(CHOOSE n \in DOMAIN NamesD : NamesD[n] = s) - 1]
Bs(k, name, parent) == [kind |-> k, name |-> name, parent |-> parent, u1 |-> "0", u2 |-> "0", u3 |-> "0"]
Ty(name, t, inner, size) == Bs("Type", name, "0") @@ [type |-> t, inner |-> inner, size |-> size]
ClassX == Bs("Class", Nm("C"), "0") @@ [vis |-> "Public", flags |-> {}, base |-> "0", functions |-> <<>>, fields |-> <<>>, overrides |-> <<>>]
FunX(name, parent) == Bs("Function", Nm(name), parent) @@ [vis |-> "Public", flags |-> {}, source |-> <<"1", "12">>, ret |-> <<>>, unk1 |-> FALSE, base |-> <<>>,
         params |-> <<>>, locals |-> <<>>, operator |-> <<>>, cast |-> "0", code |-> <<>>, unk2 |-> <<>>]
FieldX(name) == Bs("Field", Nm(name), "15") @@ [vis |-> "Public", type |-> "2", flags |-> {}, hint |-> <<>>, attrs |-> <<>>, defaults |-> <<>>]
ParamX(name, parent) == Bs("Parameter", Nm(name), parent) @@ [type |-> "2", flags |-> {}]
EnumX == Bs("Enum", Nm("E"), "0") @@ [flags |-> "0", size |-> "4", members |-> <<"25", "26">>, unk1 |-> FALSE]
ValueX(name, v) == Bs("EnumValue", Nm(name), "24") @@ [value |-> v]
LocalX(name) == Bs("Local", Nm(name), "27") @@ [type |-> "2", flags |-> {}]
\* bodies, so that what is inside of a method is a level deeper

Ev == St("ev", <<>>)
Samples == TLCEval([n \in 1..5 |-> LET b == TLCEval(Compile(<< <<Ev, Ev>>, <<St("if", <<<<Ev, St("while", <<<<Ev, St("brk", <<>>)>>>>)>>>>), Ev>>,
   <<St("swd", <<<<Ev, St("brk", <<>>)>>, <<St("ife", <<<<Ev>>, <<Ev, St("retv", <<>>)>>>>), St("brk", <<>>)>>, <<Ev>>>>), Ev>>, <<St("retv", <<>>)>>, <<St("while", <<<<St("sw", <<<<Ev>>, <<Ev>>>>), Ev>>>>)>> >>[n]))
   IN TLCEval([m \in DOMAIN b |-> IF b[m].op = "InvokeStatic" THEN [b[m] EXCEPT !.args[3] = "27"] ELSE b[m]])])
\* where everything is: 2-14 types and classes, 15 class, 16-17 fields, 18-19 methods, 20-23 parameters, 24-26 enum, 27 global, 28 parameter, 29 local
PoolX == << Ty("0", "Prim", "0", "0"), Bs("SourceFile", "0", "0") @@ [id |-> "1", hash |-> "0", path |-> <<"a.reds">>],
   Ty(Nm("Int32"), "Prim", "0", "0"), Ty(Nm("Foo"), "Class", "0", "0"), Ty(Nm("None"), "Ref", "3", "0"), Ty(Nm("None"), "WeakRef", "3", "0"),
   Ty(Nm("None"), "Array", "2", "0"), Ty(Nm("None"), "Array", "4", "0"), Ty(Nm("None"), "ScriptRef", "3", "0"), Ty(Nm("None"), "StaticArray", "2", "4"),
   Ty(Nm("None"), "StaticArray", "4", "4294967295"), Ty(Nm("None"), "Array", "9", "0"), Ty(Nm("None"), "ScriptRef", "7", "0"), Ty(Nm("None"), "StaticArray", "10", "1"),
   [ClassX EXCEPT !.name = Nm("Base")],
   [ClassX EXCEPT !.fields = <<"16", "17">>, !.functions = <<"18", "19">>],
   FieldX("a"), FieldX("b"), [FunX("m;Int32", "15") EXCEPT !.params = <<"20", "21">>], [FunX("n;Foo;Float", "15") EXCEPT !.params = <<"22", "23">>, !.flags = {"has_body"}],
   ParamX("x", "18"), ParamX("y", "18"), ParamX("a", "19"), ParamX("b", "19"),
   EnumX, ValueX("A", "0"), ValueX("B", "1"),
   [FunX("G;Int32Int32;Void", "0") EXCEPT !.params = <<"28">>, !.flags = {"is_static", "has_body"}], ParamX("x", "27"), LocalX("y") >>

\* ---------------------------------------------------------------- variations: <<index, field, value>>
TypeIxs == {NumText[n] : n \in 2..13}
Viss == {"Public", "Protected", "Private"}
Names(S) == {Nm(s) : s \in S}
Pairs(bits) == {{a, b} : a, b \in DOMAIN bits} \cup {{}}
ClassVar == {<<15, "flags", S>> : S \in Pairs(Bu!ClassFlagBits)} \cup {<<15, "flags", DOMAIN Bu!ClassFlagBits \ {"is_import_only"}>>}
            \cup {<<15, "vis", v>> : v \in Viss} \cup {<<15, "base", b>> : b \in {"0", "14"}} \cup {<<15, "name", n>> : n \in Names({"_low", "MixedCase9", "Foo"})}
            \cup {<<15, "fields", s>> : s \in {<<>>, <<"16">>, <<"17", "16">>}} \cup {<<15, "functions", s>> : s \in {<<>>, <<"18">>, <<"19">>, <<"19", "18">>}}
            \cup {<<15, "overrides", s>> : s \in {<<"18">>}}
PropLists == { <<>>, <<<<"k", "v">>>>, <<<<"k", "v">>, <<"k", "some words; {1}">>>>, <<<<"ModSettings.mod", "~utf8">>, <<"~empty", "~empty">>, <<"a", "b">>>> }
DefaultLists == { <<>>, <<<<"k", "true">>>>, <<<<"a", "15">>, <<"b", "EnumA">>>> }
FieldVar(i) == {<<i, "flags", S>> : S \in Pairs(Bu!FieldFlagBits)} \cup {<<i, "flags", DOMAIN Bu!FieldFlagBits>>}
            \cup {<<i, "vis", v>> : v \in Viss} \cup {<<i, "type", t>> : t \in TypeIxs} \cup {<<i, "name", n>> : n \in Names({"_low", "MixedCase9"})}
            \cup {<<i, "attrs", l>> : l \in PropLists} \cup {<<i, "defaults", l>> : l \in DefaultLists}
            \cup {<<i, "hint", h>> : h \in {<<"a hint">>}}
FunVar(i, ps) == {<<i, "flags", S>> : S \in Pairs(Bu!FunFlagBits)} \cup {<<i, "flags", DOMAIN Bu!FunFlagBits>>}
            \cup {<<i, "vis", v>> : v \in Viss} \cup {<<i, "name", n>> : n \in Names({"m", "_low", "MixedCase9", "n;Foo;Float"})}
            \cup {<<i, "ret", r>> : r \in {<<t>> : t \in TypeIxs} \cup {<<>>}}
            \cup {<<i, "params", s>> : s \in ps} \cup {<<i, "code", Samples[b]>> : b \in DOMAIN Samples}
ParamVar(i) == {<<i, "flags", S>> : S \in SUBSET DOMAIN Bu!ParamFlagBits} \cup {<<i, "type", t>> : t \in TypeIxs} \cup {<<i, "name", n>> : n \in Names({"_low", "MixedCase9"})}
EnumVar == {<<24, "members", s>> : s \in {<<>>, <<"25">>, <<"26", "25">>, <<"25", "26">>}} \cup {<<24, "name", n>> : n \in Names({"_low", "MixedCase9"})}
           \cup {<<24, "flags", f>> : f \in {"1", "255"}} \cup {<<24, "size", f>> : f \in {"1", "8"}} \cup {<<24, "unk1", TRUE>>}
ValueVar(i) == {<<i, "value", v>> : v \in {"1", "-1", "2147483647", "2147483648", "-2147483648", "-2147483649", "9223372036854775807", "-9223372036854775808"}}
               \cup {<<i, "name", n>> : n \in Names({"_low", "MixedCase9"})}
LocalVar == {<<29, "flags", S>> : S \in SUBSET DOMAIN Bu!LocalFlagBits} \cup {<<29, "type", t>> : t \in TypeIxs} \cup {<<29, "name", n>> : n \in Names({"_low", "MixedCase9"})}
Two == { <<>>, <<"20">>, <<"21", "20">> }
Vars == << ClassVar, FieldVar(16), FieldVar(17), FunVar(18, Two), FunVar(19, { <<>>, <<"23">>, <<"23", "22">> }), FunVar(27, { <<>>, <<"28">> }),
           ParamVar(20), ParamVar(21), ParamVar(28), EnumVar, ValueVar(25), ValueVar(26), LocalVar >>
\* everything that can be changed at one index
AllVars == TLCEval([n \in DOMAIN Vars |-> TLCEval(Vars[n])])
With(p, v) == [p EXCEPT ![v[1] + 1] = TLCEval([f \in DOMAIN @ |-> IF f = v[2] THEN v[3] ELSE @[f]])]
RECURSIVE WithAll(_, _)
WithAll(p, vs) == IF vs = <<>> THEN p ELSE LET q == TLCEval(With(p, Head(vs))) IN WithAll(q, Tail(vs))
Case(ds) == [k |-> "decl", pool |-> [names |-> << "~empty" >> \o Tail(NamesD), tweaks |-> <<>>, ress |-> <<>>, strs |-> <<>>, defs |-> ds],
             show |-> [n \in 1..28 |-> NumText[n + 1]], unit |-> << "14", "15", "24", "27", "15" >>]

Init1 == \E n \in DOMAIN AllVars : \E v \in AllVars[n] : c = Case(With(PoolX, v))
\* many at once, several of each kind
InitR == \E A \in {AllVars} : \E r \in 1..Rounds : \E vs \in {TLCEval([n \in 1..(6 * Len(A)) |-> RandomElement(A[1 + (n % Len(A))])])} : c = Case(TLCEval(WithAll(PoolX, vs)))
Next == FALSE /\ UNCHANGED c
EmitCase == PrintT("CASE " \o ToJson(c))
=============================================================================
