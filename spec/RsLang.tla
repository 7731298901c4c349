------------------------------- MODULE RsLang -------------------------------
(***************************************************************************)
(* What bytecode means, as source.                                         *)
(*                                                                         *)
(* An expression in bytecode is a tree in prefix order: an instruction,    *)
(* then its operands.  A tree here is [i, kids, sc, pad]: the instruction  *)
(* (jump operands filled in by Flat), the operand trees, and for calls the *)
(* positions of short-circuited arguments and the number of omitted ones.  *)
(*   Flat(e)          the bytecode of a tree, jump distances included      *)
(*   TreeAt(code, n)  the tree that starts at instruction n (its inverse)  *)
(*   AstOf(e, ctx)    the source expression it stands for                  *)
(* A source expression is a node [t, s, k]: what it is, its names and      *)
(* literals, its parts.                                                    *)
(***************************************************************************)
EXTENDS RsCode

Nd(t, s, k) == [t |-> t, s |-> s, k |-> k]
Leaf(t) == Nd(t, <<>>, <<>>)
Ident(x) == Nd("Ident", <<x>>, <<>>)
This == Leaf("This")
Super == Leaf("Super")
EmptyNode == Nd("Seq", <<>>, <<>>)

I(op, a) == [op |-> op, args |-> a]
Tr(i, kids) == [i |-> i, kids |-> kids, sc |-> {}, pad |-> 0]

\* ---------------------------------------------------------------- the pool the examples live in
\* names and definitions are looked up by key; KeyIx gives the index the bytecode carries (as text)
\* kinds of definition the decompiler asks about: a function is [name, parent key or "", static, ret key or ""]
Entry(key, kind, name, parent) == [key |-> key, kind |-> kind, name |-> name, parent |-> parent]
TypeE(key, name, t, inner) == Entry(key, "Type", name, "") @@ [type |-> t, inner |-> inner]
FunE(key, name, parent, flags, ret, params) == Entry(key, "Function", name, parent) @@ [flags |-> flags, ret |-> ret, params |-> params]
BinNames == << "OperatorAssignAdd", "OperatorAssignSubtract", "OperatorAssignMultiply", "OperatorAssignDivide", "OperatorAssignOr", "OperatorAssignAnd",
   "OperatorLogicOr", "OperatorLogicAnd", "OperatorOr", "OperatorXor", "OperatorAnd", "OperatorEqual", "OperatorNotEqual", "OperatorLess",
   "OperatorLessEqual", "OperatorGreater", "OperatorGreaterEqual", "OperatorAdd", "OperatorSubtract", "OperatorMultiply", "OperatorDivide", "OperatorModulo" >>
UnNames == << "OperatorBitNot", "OperatorLogicNot", "OperatorNeg" >>
Global == {"is_static", "is_final", "is_native"}
DefTable == <<
  Entry("none", "None", "None", ""),
  Entry("src", "Source", "None", ""),
  TypeE("t.Int32", "Int32", "Prim", "none"), TypeE("t.Float", "Float", "Prim", "none"), TypeE("t.Foo", "Foo", "Class", "none"),
  TypeE("t.rFoo", "ref:Foo", "Ref", "t.Foo"), TypeE("t.wFoo", "wref:Foo", "WeakRef", "t.Foo"), TypeE("t.aInt", "array:Int32", "Array", "t.Int32"),
  TypeE("t.arFoo", "array:ref:Foo", "Array", "t.rFoo"), TypeE("t.E", "E", "Class", "none"), TypeE("t.S", "S", "Class", "none"),
  TypeE("t.srInt", "script_ref:Int32", "ScriptRef", "t.Int32"),
  Entry("c.Bar", "Class", "Bar", "") @@ [base |-> "none", struct |-> FALSE], Entry("c.Foo", "Class", "Foo", "") @@ [base |-> "c.Bar", struct |-> FALSE],
  Entry("c.S", "Class", "S", "") @@ [base |-> "none", struct |-> TRUE],
  Entry("e.E", "Enum", "E", ""), Entry("e.A", "EnumValue", "A", "e.E") @@ [value |-> 0], Entry("e.B", "EnumValue", "B", "e.E") @@ [value |-> 5],
  Entry("f.x", "Field", "x", "c.Foo") @@ [type |-> "t.Int32"], Entry("f.foo", "Field", "foo", "c.Foo") @@ [type |-> "t.rFoo"],
  Entry("f.s", "Field", "s", "c.S") @@ [type |-> "t.Int32"],
  FunE("m.Over", "Over;Int32", "c.Foo", {}, "", <<"p.a", "p.b">>), FunE("m.BarOver", "Over;Int32", "c.Bar", {}, "", <<>>),
  FunE("m.Bar", "Other;", "c.Bar", {"is_final"}, "", <<>>), FunE("m.Get", "Get;Int32Int32", "c.Foo", {"is_final"}, "t.Int32", <<>>),
  FunE("s.Make", "Make;Int32", "c.Foo", {"is_static"}, "t.rFoo", <<>>),
  FunE("s.Over", "Over;Int32", "c.Bar", {"is_static"}, "", <<>>),
  FunE("g.Main", "Main;", "", {"is_static"}, "", <<>>), FunE("g.Plain", "Plain;Int32Int32", "", {"is_static"}, "t.Int32", <<>>),
  FunE("g.Over", "Over;Int32", "", {"is_static"}, "", <<>>),
  FunE("g.Cast", "Cast;Int32;Float", "", {"is_static"}, "t.Float", <<>>), FunE("g.CastArr", "Cast;Foo;array<Int32>", "", {"is_static"}, "t.aInt", <<>>),
  FunE("g.CastLike", "Casting;Int32", "", {"is_static"}, "t.Float", <<>>),
  Entry("p.a", "Parameter", "a", "m.Over") @@ [type |-> "t.Int32"], Entry("p.b", "Parameter", "b", "m.Over") @@ [type |-> "t.rFoo"],
  Entry("l.x", "Local", "x", "m.Over") @@ [type |-> "t.Int32"], Entry("l.y", "Local", "y", "m.Over") @@ [type |-> "t.arFoo"],
  Entry("l.z", "Local", "z", "m.Over") @@ [type |-> "t.wFoo"], Entry("l.b", "Local", "aa", "m.Over") @@ [type |-> "t.srInt"] >>
  \o [n \in DOMAIN BinNames |-> FunE("o." \o BinNames[n], BinNames[n] \o ";Int32Int32;Int32", "", Global, "t.Int32", <<>>)]
  \o [n \in DOMAIN UnNames |-> FunE("o." \o UnNames[n], UnNames[n] \o ";Int32;Int32", "", Global, "t.Int32", <<>>)]
  \* more locals of the same name, from other blocks
  \o << Entry("l.x2", "Local", "x", "m.Over") @@ [type |-> "t.Int32"], Entry("l.xs", "Local", "x", "m.Over") @@ [type |-> "t.wFoo"] >>

Keys == {DefTable[n].key : n \in DOMAIN DefTable}
IxOf == [key \in Keys |-> (CHOOSE n \in DOMAIN DefTable : DefTable[n].key = key) - 1]
NumText == [n \in 0..999 |-> ToString(n)]
DefIx(key) == NumText[IxOf[key]]
KeyAt == [t \in {NumText[n - 1] : n \in DOMAIN DefTable} |-> CHOOSE key \in Keys : NumText[IxOf[key]] = t]
DefOf(t) == DefTable[IxOf[KeyAt[t]] + 1]
ByKey(key) == DefTable[IxOf[key] + 1]
NameList == << "~empty" >> \o LET RECURSIVE D(_, _)
                  D(s, acc) == IF s = <<>> THEN acc ELSE D(Tail(s), IF Head(s).name = "None" \/ \E n \in DOMAIN acc : acc[n] = Head(s).name THEN acc ELSE Append(acc, Head(s).name))
              IN D(DefTable, <<>>)
NameIx(name) == IF name = "None" THEN "0" ELSE NumText[(CHOOSE n \in DOMAIN NameList : NameList[n] = name) - 1]
NameAt(t) == IF t = "0" THEN "None" ELSE NameList[CHOOSE n \in DOMAIN NameList : NumText[n - 1] = t]
Strs == [strs |-> << "~empty", "text", "~quote", "~nl", "~utf8", "~bs" >>, ress |-> << "base\\x.ent", "~quote" >>, tweaks |-> << "Items.X", "~utf8" >>]
StrAt(tab, t) == Strs[tab][CHOOSE n \in DOMAIN Strs[tab] : NumText[n - 1] = t]

\* the same pool as RsBundle describes it, for the harness to build
B(kind, e) == [kind |-> kind, name |-> NameIx(e.name), parent |-> IF e.parent = "" THEN "0" ELSE DefIx(e.parent), u1 |-> "0", u2 |-> "0", u3 |-> "0"]
Idxs(ks) == [n \in DOMAIN ks |-> DefIx(ks[n])]
ChildrenOf(key, kind) == LET S == SelectSeq(DefTable, LAMBDA e : e.parent = key /\ e.kind = kind) IN [n \in DOMAIN S |-> DefIx(S[n].key)]
BundleDef(e) ==
  CASE e.kind = "None" -> B("Type", e) @@ [type |-> "Prim", inner |-> "0", size |-> "0"]
    [] e.kind = "Source" -> B("SourceFile", e) @@ [id |-> "1", hash |-> "0", path |-> <<"a.reds">>]
    [] e.kind = "Type" -> B("Type", e) @@ [type |-> e.type, inner |-> DefIx(e.inner), size |-> "0"]
    [] e.kind = "Class" -> B("Class", e) @@ [vis |-> "Public", flags |-> IF e.struct THEN {"is_struct"} ELSE {}, base |-> DefIx(e.base),
                             functions |-> ChildrenOf(e.key, "Function"), fields |-> ChildrenOf(e.key, "Field"), overrides |-> <<>>]
    [] e.kind = "Enum" -> B("Enum", e) @@ [flags |-> "0", size |-> "4", members |-> ChildrenOf(e.key, "EnumValue"), unk1 |-> FALSE]
    [] e.kind = "EnumValue" -> B("EnumValue", e) @@ [value |-> e.value]
    [] e.kind = "Field" -> B("Field", e) @@ [vis |-> "Public", type |-> DefIx(e.type), flags |-> {}, hint |-> <<>>, attrs |-> <<>>, defaults |-> <<>>]
    [] e.kind = "Parameter" -> B("Parameter", e) @@ [type |-> DefIx(e.type), flags |-> {}]
    [] e.kind = "Local" -> B("Local", e) @@ [type |-> DefIx(e.type), flags |-> {}]
    [] e.kind = "Function" -> B("Function", e) @@ [vis |-> "Public", flags |-> e.flags \cup {"has_body"}, source |-> <<"1", "1">>, ret |-> IF e.ret = "" THEN <<>> ELSE <<DefIx(e.ret)>>,
                             unk1 |-> FALSE, base |-> <<>>, params |-> Idxs(e.params), locals |-> <<>>, operator |-> <<>>, cast |-> "0", code |-> <<>>, unk2 |-> <<>>]
EnvPool == Strs @@ [names |-> NameList, defs |-> [n \in DOMAIN DefTable |-> BundleDef(DefTable[n])]]

\* ---------------------------------------------------------------- shapes of expressions
\* intrinsics: instruction -> <<source name, number of operands>>
Intr(name, n, ops) == [o \in ops |-> <<name, n>>]
Intrinsics ==
  Intr("Equals", 2, {"Equals", "RefStringEqualsString", "StringEqualsRefString"}) @@
  Intr("NotEquals", 2, {"NotEquals", "RefStringNotEqualsString", "StringNotEqualsRefString"}) @@
  Intr("Delete", 1, {"Delete"}) @@
  Intr("ArrayClear", 1, {"ArrayClear"}) @@ Intr("ArraySize", 1, {"ArraySize", "StaticArraySize"}) @@ Intr("ArrayResize", 2, {"ArrayResize"}) @@
  Intr("ArrayFindFirst", 2, {"ArrayFindFirst", "ArrayFindFirstFast", "StaticArrayFindFirst", "StaticArrayFindFirstFast"}) @@
  Intr("ArrayFindLast", 2, {"ArrayFindLast", "ArrayFindLastFast", "StaticArrayFindLast", "StaticArrayFindLastFast"}) @@
  Intr("ArrayContains", 2, {"ArrayContains", "ArrayContainsFast", "StaticArrayContains", "StaticArrayContainsFast"}) @@
  Intr("ArrayCount", 2, {"ArrayCount", "ArrayCountFast", "StaticArrayCount", "StaticArrayCountFast"}) @@
  Intr("ArrayPush", 2, {"ArrayPush"}) @@ Intr("ArrayPop", 1, {"ArrayPop"}) @@ Intr("ArrayInsert", 3, {"ArrayInsert"}) @@
  Intr("ArrayRemove", 2, {"ArrayRemove", "ArrayRemoveFast"}) @@ Intr("ArrayGrow", 2, {"ArrayGrow"}) @@
  Intr("ArrayErase", 2, {"ArrayErase", "ArrayEraseFast"}) @@ Intr("ArrayLast", 1, {"ArrayLast", "StaticArrayLast"}) @@
  Intr("ArraySort", 1, {"ArraySort"}) @@ Intr("ArraySortByPredicate", 2, {"ArraySortByPredicate"}) @@
  Intr("IsDefined", 1, {"RefToBool", "WeakRefToBool", "VariantIsDefined"}) @@ Intr("EnumInt", 1, {"EnumToI32"}) @@ Intr("IntEnum", 1, {"I32ToEnum"}) @@
  Intr("ToString", 1, {"ToString", "VariantToString"}) @@ Intr("ToVariant", 1, {"ToVariant"}) @@ Intr("FromVariant", 1, {"FromVariant"}) @@
  Intr("VariantIsRef", 1, {"VariantIsRef"}) @@ Intr("VariantIsArray", 1, {"VariantIsArray"}) @@ Intr("VariantTypeName", 1, {"VariantTypeName"}) @@
  Intr("WeakRefToRef", 1, {"WeakRefToRef"}) @@ Intr("RefToWeakRef", 1, {"RefToWeakRef"}) @@ Intr("AsRef", 1, {"AsRef"}) @@ Intr("Deref", 1, {"Deref"})
\* the type argument that shows in the source, when there is one
Typed == {"I32ToEnum", "FromVariant"}

Leaves == {"Null", "WeakRefNull", "I32One", "I32Zero", "I8Const", "I16Const", "I32Const", "I64Const", "U8Const", "U16Const", "U32Const", "U64Const",
           "F32Const", "F64Const", "StringConst", "NameConst", "TweakDbIdConst", "ResourceConst", "TrueConst", "FalseConst", "EnumConst", "Local", "Param",
           "ObjectField", "New", "This"}
Calls == {"InvokeStatic", "InvokeVirtual"}
Arity(i) == CASE i.op \in Leaves -> 0
              [] i.op \in DOMAIN Intrinsics -> Intrinsics[i.op][2]
              [] i.op \in {"Assign", "ArrayElement", "StaticArrayElement", "Context"} -> 2
              [] i.op \in {"StructField", "DynamicCast"} -> 1
              [] i.op = "Conditional" -> 3
              [] i.op = "Construct" -> CHOOSE n \in 0..199 : NumText[n] = i.args[1]
ExprOps == Leaves \cup Calls \cup DOMAIN Intrinsics \cup {"Assign", "ArrayElement", "StaticArrayElement", "Context", "StructField", "DynamicCast", "Conditional", "Construct"}

\* ---------------------------------------------------------------- bytecode of a tree
RECURSIVE Flat(_)
Flat(e) ==
  LET k == TLCEval([n \in DOMAIN e.kids |-> Flat(e.kids[n])])
      sz == TLCEval([n \in DOMAIN k |-> CodeSize(k[n])])
      own == RuntimeSize(e.i)
      all == FlattenSeq(k)
  IN CASE e.i.op = "Context" -> << I("Context", <<own + sz[1] + sz[2]>>) >> \o all
       [] e.i.op = "Conditional" -> << I("Conditional", <<own + sz[1] + sz[2], own + sz[1] + sz[2] + sz[3]>>) >> \o all
       [] e.i.op \in Calls ->
            LET arg(n) == IF n \in e.sc THEN << I("Skip", <<3 + sz[n]>>) >> \o k[n] ELSE k[n]
                args == FlattenSeq([n \in DOMAIN k |-> arg(n)]) \o [n \in 1..e.pad |-> I("Nop", <<>>)] \o << I("ParamEnd", <<>>) >>
            IN << [e.i EXCEPT !.args[1] = own + CodeSize(args)] >> \o args
       [] OTHER -> << e.i >> \o all

\* ---------------------------------------------------------------- the tree at an instruction: <<tree, index after it>>
RECURSIVE TreeAt(_, _), KidsAt(_, _, _), ArgsAt(_, _, _, _, _)
KidsAt(code, n, m) == IF m = 0 THEN <<<<>>, n>>
  ELSE LET t == TreeAt(code, n) r == KidsAt(code, t[2], m - 1) IN <<<<t[1]>> \o r[1], r[2]>>
\* skip: the next argument is short-circuited; pad: omitted arguments so far
ArgsAt(code, n, acc, sc, pad) ==
  CASE code[n].op = "ParamEnd" -> <<acc, n + 1, sc, pad>>
    [] code[n].op = "Nop" -> ArgsAt(code, n + 1, acc, sc, pad + 1)
    [] code[n].op = "Skip" -> ArgsAt(code, n + 1, acc, sc \cup {Len(acc) + 1}, pad)
    [] OTHER -> LET t == TreeAt(code, n) IN ArgsAt(code, t[2], Append(acc, t[1]), sc, pad)
TreeAt(code, n) ==
  LET i == code[n] IN
  IF i.op \in Calls
  THEN LET r == ArgsAt(code, n + 1, <<>>, {}, 0) IN <<[i |-> i, kids |-> r[1], sc |-> r[3], pad |-> r[4]], r[2]>>
  ELSE LET r == KidsAt(code, n + 1, Arity(i)) IN <<Tr(i, r[1]), r[2]>>

\* ---------------------------------------------------------------- the source a tree stands for
Const(t, v) == Nd(t, <<v>>, <<>>)
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
\* fn: the key of the function the expression occurs in
RECURSIVE AstOf(_, _, _)
AstOf(fn, e, ctx) ==
  LET op == e.i.op
      a == e.i.args
      K(n) == AstOf(fn, e.kids[n], <<>>)
      Ks == TLCEval([n \in DOMAIN e.kids |-> K(n)])
      me == ByKey(fn)
  IN CASE op \in {"Null", "WeakRefNull"} -> Leaf("Null")
       [] op = "I32One" -> Const("I32", "1") [] op = "I32Zero" -> Const("I32", "0")
       [] op \in {"I8Const", "I16Const", "I32Const"} -> Const("I32", a[1])
       [] op \in {"U8Const", "U16Const", "U32Const"} -> Const("U32", a[1])
       [] op = "I64Const" -> Const("I64", a[1]) [] op = "U64Const" -> Const("U64", a[1])
       [] op = "F32Const" -> Const("F32", a[1]) [] op = "F64Const" -> Const("F64", a[1])
       [] op = "StringConst" -> Const("Str", StrAt("strs", a[1])) [] op = "NameConst" -> Const("Name", NameAt(a[1]))
       [] op = "TweakDbIdConst" -> Const("Tweak", StrAt("tweaks", a[1])) [] op = "ResourceConst" -> Const("Res", StrAt("ress", a[1]))
       [] op = "TrueConst" -> Const("Bool", "true") [] op = "FalseConst" -> Const("Bool", "false")
       [] op = "EnumConst" -> Nd("Member", <<DefOf(a[2]).name>>, <<Ident(DefOf(a[1]).name)>>)
       [] op \in {"Local", "Param"} -> Ident(DefOf(a[1]).name)
       [] op = "This" -> This
       [] op = "New" -> Nd("New", <<DefOf(a[1]).name>>, <<>>)
       [] op = "Construct" -> Nd("New", <<DefOf(a[2]).name>>, Ks)
       [] op = "ObjectField" -> Nd("Member", <<DefOf(a[1]).name>>, <<IF ctx = <<>> THEN This ELSE ctx[1]>>)
       [] op = "StructField" -> Nd("Member", <<DefOf(a[1]).name>>, Ks)
       [] op = "Context" -> AstOf(fn, e.kids[2], <<K(1)>>)
       [] op = "Assign" -> Nd("Assign", <<>>, Ks)
       [] op \in {"ArrayElement", "StaticArrayElement"} -> Nd("Elem", <<>>, Ks)
       [] op = "DynamicCast" -> Nd("Cast", <<DefOf(a[1]).name>>, Ks)
       [] op = "Conditional" -> Nd("Cond", <<>>, Ks)
       [] op \in Typed -> Nd("Call", <<Intrinsics[op][1], DefOf(a[1]).name>>, Ks)
       [] op \in DOMAIN Intrinsics -> Nd("Call", <<Intrinsics[op][1]>>, Ks)
       [] op = "InvokeVirtual" -> Nd("Method", <<NameAt(a[3])>>, <<IF ctx = <<>> THEN This ELSE ctx[1]>> \o Ks)
       [] op = "InvokeStatic" ->
            LET f == DefOf(a[3])
                \* a method of another class with the name of the function it is called from, on this object: the overridden one
                up == "is_static" \notin f.flags /\ f.name = me.name /\ f.parent # me.parent
            IN
            IF up /\ ctx \in {<<>>, <<This>>} THEN Nd("Method", <<f.name>>, <<Super>> \o Ks)
            ELSE IF ctx # <<>> THEN Nd("Method", <<f.name>>, ctx \o Ks)
            ELSE IF "is_static" \in f.flags
              THEN IF f.parent # "" THEN Nd("Method", <<f.name>>, <<Ident(ByKey(f.parent).name)>> \o Ks)
                   ELSE IF StartsWith(f.name, "Cast;") THEN Nd("Call", <<f.name, ByKey(f.ret).name>>, Ks)
                   ELSE Nd("Call", <<f.name>>, Ks)
              ELSE Nd("Method", <<f.name>>, <<This>> \o Ks)
ASSUME \A n \in DOMAIN DefTable : IxOf[DefTable[n].key] = n - 1
=============================================================================
