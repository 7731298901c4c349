------------------------------ MODULE GenBundle -----------------------------
(* Pools whose file, as RsBundle lays it out, is compared byte by byte with what the implementation writes, and *)
(* loaded by it.  `full` are families of definitions varied along every attribute.                              *)
EXTENDS RsBundle, Json
CONSTANT Deep        \* TRUE: the larger families
VARIABLE c
Emit(x) == PrintT("CASE " \o ToJson(x))

H0 == [version |-> "14", flags |-> "0", timestamp |-> "0", unk3 |-> "0", chunks |-> "0"]
H1 == [version |-> "14", flags |-> "4294967295", timestamp |-> "1234567890123456789", unk3 |-> "3735928559", chunks |-> "7"]
H2 == [version |-> "9", flags |-> "1", timestamp |-> "18446744073709551615", unk3 |-> "3", chunks |-> "4000000000"]

D0 == [kind |-> "Type", name |-> "0", parent |-> "0", u1 |-> "0", u2 |-> "0", u3 |-> "0", type |-> "Prim", inner |-> "0", size |-> "0"]
TypeD(t, inner, size) == [D0 EXCEPT !.name = "1", !.type = t, !.inner = inner, !.size = size]
Base(k, name, parent) == [kind |-> k, name |-> name, parent |-> parent, u1 |-> "0", u2 |-> "0", u3 |-> "0"]
ClassD == Base("Class", "2", "0") @@ [vis |-> "Public", flags |-> {}, base |-> "0", functions |-> <<>>, fields |-> <<>>, overrides |-> <<>>]
FunD == Base("Function", "2", "0") @@ [vis |-> "Public", flags |-> {}, source |-> <<"1", "12">>, ret |-> <<>>, unk1 |-> FALSE, base |-> <<>>,
         params |-> <<>>, locals |-> <<>>, operator |-> <<>>, cast |-> "0", code |-> <<>>, unk2 |-> <<>>]
FieldD == Base("Field", "2", "3") @@ [vis |-> "Public", type |-> "4", flags |-> {}, hint |-> <<>>, attrs |-> <<>>, defaults |-> <<>>]
EnumD == Base("Enum", "2", "0") @@ [flags |-> "0", size |-> "4", members |-> <<>>, unk1 |-> FALSE]
EnumValD(v) == Base("EnumValue", "2", "3") @@ [value |-> v]
ParamD == Base("Parameter", "2", "3") @@ [type |-> "4", flags |-> {}]
LocalD == Base("Local", "2", "3") @@ [type |-> "4", flags |-> {}]
SrcD(p) == Base("SourceFile", "0", "0") @@ [id |-> "1", hash |-> "0", path |-> p]

I(op, a) == [op |-> op, args |-> a]
Code1 == << I("Return", <<>>), I("I32Const", <<"7">>) >>
Code2 == << I("JumpIfFalse", <<9>>), I("TrueConst", <<>>), I("Return", <<>>), I("NameConst", <<"3">>), I("Jump", <<-21>>), I("Nop", <<>>) >>
Code3 == << I("Breakpoint", <<"1", "2", "3", "4", "1", "0">>), I("StartProfiling", <<"~utf8", "1">>), I("InvokeStatic", <<20, "3", "2", "0">>), I("ParamEnd", <<>>),
            I("Conditional", <<10, 20>>), I("Switch", <<"4", 30>>), I("SwitchLabel", <<12, 8>>), I("F64Const", <<"2.25">>) >>

Vis == {"Public", "Protected", "Private"}
\* indices come in any order, and more than once
Seqs == { <<>>, <<"5">>, <<"5", "5", "2">>, <<"4294967295", "0", "7", "0">> }

ClassSettable == DOMAIN ClassFlagBits \ {"has_functions", "has_fields", "has_overrides"}
FieldSettable == DOMAIN FieldFlagBits \ {"has_hint"}
FunSettable == DOMAIN FunFlagBits \ (FunDerived \cup {"is_native", "is_cast", "unk4"})

Types == {TypeD(t, i, s) : t \in DOMAIN TypeNum, i \in {"0"}, s \in {"0"}}
         \cup {TypeD(t, "4294967295", "0") : t \in {"Ref", "WeakRef", "Array", "ScriptRef"}}
         \cup {TypeD("StaticArray", "3", s) : s \in {"1", "255", "256", "4294967295"}}
Classes == {[ClassD EXCEPT !.vis = v, !.base = b] : v \in Vis, b \in {"0", "7", "4294967295"}}
           \cup {[ClassD EXCEPT !.flags = {f}] : f \in ClassSettable}
           \cup {[ClassD EXCEPT !.flags = ClassSettable]}
           \cup {[ClassD EXCEPT !.functions = a, !.fields = b, !.overrides = o] : a, b, o \in Seqs}
           \* a stale flag does not decide what is written
           \cup {[ClassD EXCEPT !.flags = {"has_functions", "has_fields", "has_overrides"}, !.fields = b] : b \in Seqs}
Fields == {[FieldD EXCEPT !.vis = v, !.type = t] : v \in Vis, t \in {"1", "4294967295"}}
          \cup {[FieldD EXCEPT !.flags = {f}] : f \in FieldSettable} \cup {[FieldD EXCEPT !.flags = FieldSettable]}
          \cup {[FieldD EXCEPT !.hint = h, !.attrs = a, !.defaults = d] :
                   h \in {<<>>, <<"~empty">>, <<"a hint">>, <<"~utf8">>},
                   a, d \in {<<>>, <<<<"k", "v">>>>, <<<<"k", "v">>, <<"k", "v">>, <<"k", "a">>>>, <<<<"ui", "~utf8">>, <<"~empty", "~big300">>>>}}
Enums == {[EnumD EXCEPT !.flags = f, !.size = s, !.members = m, !.unk1 = u] : f \in {"0", "255"}, s \in {"1", "8", "200"}, m \in Seqs, u \in BOOLEAN}
EnumVals == {EnumValD(v) : v \in {"0", "-1", "1", "9223372036854775807", "-9223372036854775808", "4294967296"}}
Params == {[ParamD EXCEPT !.type = t, !.flags = f] : t \in {"1", "4294967295"}, f \in SUBSET DOMAIN ParamFlagBits}
Locals == {[LocalD EXCEPT !.type = t, !.flags = f] : t \in {"1", "4294967295"}, f \in SUBSET DOMAIN LocalFlagBits}
Srcs == {[SrcD(p) EXCEPT !.id = i, !.hash = h] : p \in {<<"a.reds">>, <<"dir", "b.reds">>, <<"x", "y", "~utf8">>},
           i \in {"0", "4294967295"}, h \in {"0", "18446744073709551615"}}
HeaderBits == {[ClassD EXCEPT !.u1 = a, !.u2 = b, !.u3 = d, !.name = n, !.parent = p] :
                 a \in {"0", "1", "255"}, b \in {"0", "2"}, d \in {"0", "3", "255"}, n \in {"0", "4"}, p \in {"0", "2", "4294967295"}}
FunFlagged == {[FunD EXCEPT !.flags = {f}] : f \in FunSettable} \cup {[FunD EXCEPT !.flags = FunSettable]}
              \cup {[FunD EXCEPT !.vis = v] : v \in Vis}
              \cup {[FunD EXCEPT !.flags = FunDerived]}
              \cup {[FunD EXCEPT !.flags = {"is_native"} \cup x, !.source = <<>>] : x \in {{}, {"is_static"}, {"is_const", "is_callback"}}}
              \cup {[FunD EXCEPT !.source = <<"2", "4294967295">>], [FunD EXCEPT !.source = <<"4294967295", "0">>]}
              \cup {[FunD EXCEPT !.ret = <<r>>, !.unk1 = u] : r \in {"0", "4", "4294967295"}, u \in BOOLEAN}
              \cup {[FunD EXCEPT !.base = <<r>>] : r \in {"0", "4", "4294967295"}}
              \cup {[FunD EXCEPT !.operator = <<r>>] : r \in {"0", "4", "4294967295"}}
              \cup {[FunD EXCEPT !.params = a, !.locals = b] : a, b \in Seqs}
              \cup {[FunD EXCEPT !.flags = {"is_cast"}, !.cast = x] : x \in {"0", "1", "255"}}
              \cup {[FunD EXCEPT !.flags = {"unk4"}, !.unk2 = x, !.params = y] : x \in Seqs, y \in {<<>>, <<"5">>}}
              \cup {[FunD EXCEPT !.code = x] : x \in {Code1, Code2, Code3}}
\* every combination of the optional parts of a function: what follows what
FunCombos == {[FunD EXCEPT !.flags = If(nat, "is_native") \cup If(cst, "is_cast") \cup If(u4, "unk4"),
                  !.source = IF nat THEN <<>> ELSE <<"1", "3">>, !.ret = IF r THEN <<"4">> ELSE <<>>, !.unk1 = r,
                  !.base = IF b THEN <<"6">> ELSE <<>>, !.params = IF p THEN <<"5", "2">> ELSE <<>>,
                  !.locals = IF l THEN <<"9">> ELSE <<>>, !.operator = IF o THEN <<"11">> ELSE <<>>,
                  !.cast = IF cst THEN "9" ELSE "0", !.code = IF cd THEN Code1 ELSE <<>>,
                  !.unk2 = IF u4 THEN <<"7", "8">> ELSE <<>>] :
                nat, cst, u4, r, b, p, l, o, cd \in BOOLEAN}

Strs0 == [names |-> <<"~empty", "A", "B">>, tweaks |-> <<>>, ress |-> <<>>, strs |-> <<>>]
Pool(strs, ds) == strs @@ [defs |-> ds]
One(d) == Pool(Strs0, << D0, SrcD(<<"a.reds">>), d, [LocalD EXCEPT !.name = "1"] >>)

StrTables == { <<>>, <<"~empty">>, <<"A">>, <<"A", "B">>, <<"B", "A", "~utf8">>, <<"~jp", "~big300", "A">>, <<"C", "~quote", "~nl">> }
StringPools == {Pool([names |-> <<"~empty">> \o n, tweaks |-> t, ress |-> r, strs |-> s], << D0 >>) :
                  n \in {<<>>, <<"A">>, <<"B", "A">>, <<"~utf8", "C">>}, t, r, s \in StrTables}
\* larger pools: offsets accumulate over bodies of every kind
Reps == << TypeD("Ref", "3", "0"), [ClassD EXCEPT !.functions = <<"4">>], EnumValD("-5"), [EnumD EXCEPT !.members = <<"4", "5">>],
           [FunD EXCEPT !.code = Code3, !.params = <<"1">>], [FunD EXCEPT !.flags = {"is_native", "is_static"}, !.source = <<>>], ParamD, LocalD,
           [FieldD EXCEPT !.hint = <<"hint">>, !.attrs = <<<<"a", "b">>>>], SrcD(<<"dir", "c.reds">>), [FieldD EXCEPT !.defaults = <<<<"key", "~utf8">>>>] >>
Mixed == {Pool(Strs0, << D0, Reps[a], Reps[b], Reps[d] >>) : a, b, d \in DOMAIN Reps}

\* what does not fit in one or two bytes: long strings, long lists, many strings, many definitions, long code
AllIxs == TLCEval([m \in 1..700 |-> ToString((m * 7) % 1000)])
Ixs(n) == SubSeq(AllIxs, 1, n)
Many(prefix, n) == TLCEval([m \in 1..n |-> prefix \o ToString(m)])
SpB(s) == I("StartProfiling", <<s, "1">>)
LongCode == << SpB("~big65500"), I("Nop", <<>>), SpB("~big40000"), I("InvokeStatic", <<20, "3", "2", "0">>), I("ParamEnd", <<>>), I("Jump", <<-21>>) >>
ManyCode == [m \in 1..400 |-> IF m % 2 = 0 THEN I("I64Const", <<"-9">>) ELSE I("Breakpoint", <<"1", "2", "3", "4", "1", "0">>)]
BigDefs == {[ClassD EXCEPT !.functions = Ixs(300), !.fields = Ixs(256), !.overrides = Ixs(255)], [EnumD EXCEPT !.members = Ixs(700)],
            [FunD EXCEPT !.params = Ixs(257), !.locals = Ixs(300), !.code = Code1], [FunD EXCEPT !.flags = {"unk4"}, !.unk2 = Ixs(300), !.params = Ixs(300)],
            [FunD EXCEPT !.code = LongCode, !.locals = <<"3">>, !.flags = {"unk4"}, !.unk2 = <<"7">>], [FunD EXCEPT !.code = ManyCode],
            [FieldD EXCEPT !.hint = <<"~big40000">>, !.attrs = <<<<"~big65535", "~big40000">>, <<"k", "~big300">>>>, !.defaults = <<<<"~big256", "v">>>>],
            [FieldD EXCEPT !.attrs = LET ks == Many("k", 300) IN TLCEval([m \in 1..300 |-> <<ks[m], "v">>]), !.defaults = LET vs == Many("v", 260) IN TLCEval([m \in 1..260 |-> <<"d", vs[m]>>])],
            SrcD(Many("d", 300)), SrcD(<<"~big40000", "~big20000">>)}
LongStrs == [names |-> <<"~empty", "~big65535", "A", "~big40000", "B">>, tweaks |-> <<"~big20000", "T">>, ress |-> <<"~big70000", "A">>, strs |-> <<"~big32768", "B", "~big65535">>]
ManyStrs == [names |-> <<"~empty">> \o Many("n", 300), tweaks |-> Many("t", 257), ress |-> Many("n", 20) \o <<"R">>, strs |-> Many("s", 260)]
BigPools == {Pool(Strs0, << D0, SrcD(<<"a.reds">>), d, [LocalD EXCEPT !.name = "1"], ClassD >>) : d \in BigDefs}
            \cup {Pool(s, << D0, [FunD EXCEPT !.code = LongCode], SrcD(<<"a.reds">>), [LocalD EXCEPT !.name = "4"], ClassD >>) : s \in {LongStrs, ManyStrs}}
            \cup {Pool(Strs0, << D0 >> \o [m \in 1..300 |-> [Reps[1 + (m % Len(Reps))] EXCEPT !.name = IF m % 3 = 0 THEN "1" ELSE "2", !.parent = AllIxs[m]]])}
Families == [types |-> Types, classes |-> Classes, fields |-> Fields, enums |-> Enums, enumvals |-> EnumVals,
             params |-> Params, locals |-> Locals, srcs |-> Srcs, hdrbits |-> HeaderBits, funs |-> FunFlagged, combos |-> FunCombos]

\* mode: "plain" (save, load, compare), "faults" (also every truncation and every write fault)
Case(h, p, m) == [k |-> "bundle", mode |-> m, pool |-> [p EXCEPT !.defs = [n \in DOMAIN p.defs |-> Loaded(p.defs[n])]],
                  raw |-> p, header |-> h, bytes |-> EncodeBundle(h, p), ok |-> LayoutOK(h, p)]
FaultCase(h, p) == Case(h, p, "faults") @@ [bad |-> BadTags(p)]
InitDefs == \E f \in DOMAIN Families : \E d \in Families[f] : c = Case(H1, One(d), "plain")
InitStrings == \E p \in StringPools : c = Case(H0, p, "plain")
InitBig == \E p \in BigPools : c = TLCEval(Case(H1, p, "plain"))
InitMixed == \E p \in Mixed : (Deep \/ p.defs[2].kind \in {"Class", "Function", "Field"}) /\ c = Case(H2, p, "plain")
\* each kind of definition once in the middle of the file, and once at its very end
InitFaults == \E h \in {H0, H1}, n \in DOMAIN Reps, last \in BOOLEAN :
                c = FaultCase(h, Pool([names |-> <<"~empty", "A", "~utf8">>, tweaks |-> <<"T.x">>, ress |-> <<"r">>, strs |-> <<"A", "s">>],
                                  IF last THEN << D0, Reps[9], Reps[5], Reps[n] >> ELSE << D0, Reps[n], Reps[5], Reps[9] >>))
Next == FALSE /\ UNCHANGED c
LayoutInv == c.ok
EmitCase == Emit(c)
=============================================================================
