-------------------------------- MODULE RsVm --------------------------------
(***************************************************************************)
(* The game's machine: what compiled functions do.  A recording holds      *)
(*   fns      index -> [name, class, native, params, locals, code]         *)
(*   classes  name -> [base, struct, fns, fields]                          *)
(*   types    name -> [k, of]      enums  name -> member -> value          *)
(* Code is prefix: an instruction, then its operands.                      *)
(***************************************************************************)
EXTENDS RsCode, RsVal

\* functions ready to run: where each instruction starts
Ready(R) == [R EXCEPT !.fns = [x \in DOMAIN @ |-> @[x] @@ [locs |-> LocTable(@[x].code)]]]
\* the field a reference stands for
FieldTab(R) == LET cs == {c \in DOMAIN R.classes : TRUE}
                   T(c) == [ix \in {R.classes[c].fields[m].ix : m \in DOMAIN R.classes[c].fields} |->
                              LET m == CHOOSE m \in DOMAIN R.classes[c].fields : R.classes[c].fields[m].ix = ix IN [name |-> R.classes[c].fields[m].name, pos |-> m]]
               IN FoldSet(LAMBDA c, acc : T(c) @@ acc, [x \in {} |-> 0], cs)
ClassTab(R) == FoldSet(LAMBDA c, acc : (R.classes[c].ix :> c) @@ acc, [x \in {} |-> ""], DOMAIN R.classes)
Machine(rec) == LET R == TLCEval(Ready([fns |-> rec.fns, classes |-> rec.classes, types |-> rec.types, enums |-> rec.enums])) IN
                R @@ [fields |-> TLCEval(FieldTab(R)), classOf |-> TLCEval(ClassTab(R))]

RECURSIVE ZeroOf(_, _)
ZeroOf(R, t) ==
  IF t \notin DOMAIN R.types THEN NoVal
  ELSE LET d == R.types[t] IN
  CASE d.k = "prim" -> (CASE t = "Int32" -> IntV(0) [] t = "Bool" -> BoolV(FALSE) [] t = "String" -> TextV("") [] t = "Variant" -> NoVal [] OTHER -> Lit(t, ""))
    [] d.k = "array" -> ArrV(<<>>)
    [] d.k = "ref" -> RefV(0)
    [] d.k = "wref" -> WRefV(0)
    [] d.k = "class" -> IF t \in DOMAIN R.enums THEN EnumV(t, R.enums[t][1].n)
                        ELSE IF t \in DOMAIN R.classes THEN StructV(t, [m \in DOMAIN R.classes[t].fields |-> ZeroOf(R, R.classes[t].fields[m].type)]) ELSE NoVal
    [] OTHER -> NoVal
\* what values of the type look like
TypeCat(R, t) == IF t \notin DOMAIN R.types THEN "?" ELSE CASE R.types[t].k \in {"prim", "class"} -> IF t = "Variant" THEN "variant" ELSE t [] OTHER -> R.types[t].k
CatOf(v) == CASE v.k \in {"int", "bool", "str", "struct", "enum", "lit"} -> v.t [] v.k = "arr" -> "array" [] OTHER -> v.k
\* a value an instruction was told the type of
Fits(R, t, v) == v.k \in {"none", "found"} \/ CatOf(v) = TypeCat(R, t)

RECURSIVE Lineage(_, _)
Lineage(R, c) == IF c \notin DOMAIN R.classes THEN <<>> ELSE <<c>> \o Lineage(R, R.classes[c].base)
FieldsAll(R, c) == FlattenSeq([m \in DOMAIN Lineage(R, c) |-> R.classes[Lineage(R, c)[m]].fields])
FreshObj(R, c) == LET fs == FieldsAll(R, c) IN [c |-> c, f |-> [x \in {fs[m].name : m \in DOMAIN fs} |-> ZeroOf(R, fs[CHOOSE m \in DOMAIN fs : fs[m].name = x].type)]]
\* the method that answers to the name
Answering(R, c, name) == LET own(k) == {f \in Range(R.classes[k].fns) : R.fns[f].name = name}
                             L == Lineage(R, c) S == {m \in DOMAIN L : own(L[m]) # {}} IN
                         IF S = {} THEN "" ELSE CHOOSE f \in own(L[CHOOSE m \in S : \A o \in S : m <= o]) : TRUE

RdVar(s, p) == CASE p.r = "env" -> Parts(s.env[p.x], p.st) [] p.r = "obj" -> Parts(s.heap[p.o].f[p.x], p.st) [] p.r = "tmp" -> Parts(p.v, p.st) [] OTHER -> NoVal
WrVar(s, p, v) == IF s.stop # "" THEN s
  ELSE CASE p.r = "env" -> [s EXCEPT !.env[p.x] = Put(@, p.st, v)] [] p.r = "obj" -> [s EXCEPT !.heap[p.o].f[p.x] = Put(@, p.st, v)] [] OTHER -> s

\* the instruction a jump of the instruction at n leads to; 0: none
JumpTo(F, n, off) == LET S == {m \in DOMAIN F.locs : F.locs[m] = F.locs[n] + off} IN IF S = {} THEN 0 ELSE CHOOSE m \in S : TRUE
Consts == {"I32Const", "I32One", "I32Zero", "TrueConst", "FalseConst", "StringConst", "NameConst", "TweakDbIdConst", "ResourceConst", "I64Const", "U32Const", "U64Const",
           "F32Const", "F64Const", "I8Const", "I16Const", "U8Const", "U16Const"}
ConstType == ("NameConst" :> "CName") @@ ("TweakDbIdConst" :> "TweakDBID") @@ ("ResourceConst" :> "ResRef") @@ ("I64Const" :> "Int64") @@ ("U32Const" :> "Uint32")
             @@ ("U64Const" :> "Uint64") @@ ("F32Const" :> "Float") @@ ("F64Const" :> "Double") @@ ("I8Const" :> "Int8") @@ ("I16Const" :> "Int16")
             @@ ("U8Const" :> "Uint8") @@ ("U16Const" :> "Uint16")
Bit(flags, n) == (flags \div (2 ^ n)) % 2 = 1

RECURSIVE Val1(_, _, _, _), At(_, _, _, _), Temp(_, _), Invoke(_, _, _, _, _, _), Exec(_, _, _, _), Match(_, _, _, _, _), Many(_, _, _, _, _)
\* <<next instruction, result, state>>
At(R, F, pc, s) ==
  IF s.stop # "" THEN <<pc, Nowhere, s>>
  ELSE IF pc > Len(F.code) THEN <<pc, Nowhere, Stuck(s, "operand missing")>>
  ELSE LET i == F.code[pc] IN
  CASE i.op \in {"Local", "Param"} -> IF i.args[1] \in DOMAIN s.env THEN <<pc + 1, PathOf("env", i.args[1], 0, NoVal), s>> ELSE <<pc, Nowhere, Stuck(s, "variable of another function")>>
    [] i.op = "ObjectField" -> IF s.this > 0 /\ i.args[1] \in DOMAIN R.fields /\ R.fields[i.args[1]].name \in DOMAIN s.heap[s.this].f
                               THEN <<pc + 1, PathOf("obj", R.fields[i.args[1]].name, s.this, NoVal), s>> ELSE <<pc, Nowhere, Stuck(s, "no such field")>>
    [] i.op = "Context" ->
         LET o == TLCEval(Val1(R, F, pc + 1, s)) out == JumpTo(F, pc, i.args[1]) IN
         IF o[3].stop # "" THEN <<pc, Nowhere, o[3]>>
         ELSE IF o[2].k = "wref" THEN <<pc, Nowhere, Stuck(s, "a weak reference as context")>>
         ELSE IF out = 0 THEN <<pc, Nowhere, Stuck(s, "context ends nowhere")>>
         ELSE IF ~(IsRef(o[2]) /\ o[2].n > 0) THEN <<out, Nowhere, o[3]>>
         ELSE IF o[1] > Len(F.code) THEN <<pc, Nowhere, Stuck(s, "operand missing")>>
         ELSE IF F.code[o[1]].op = "ObjectField" THEN
              LET p == TLCEval(At(R, F, o[1], [o[3] EXCEPT !.this = o[2].n])) IN
              IF p[3].stop # "" THEN p ELSE IF p[1] # out THEN <<pc, Nowhere, Stuck(s, "context ends elsewhere")>> ELSE <<p[1], p[2], [p[3] EXCEPT !.this = o[3].this]>>
         ELSE LET v == TLCEval(Val1(R, F, pc, s)) IN <<v[1], PathOf("tmp", "", 0, v[2]), v[3]>>
    [] i.op = "StructField" -> LET p == TLCEval(At(R, F, pc + 1, s)) IN
         IF p[3].stop # "" THEN p
         ELSE IF i.args[1] \notin DOMAIN R.fields THEN <<pc, Nowhere, Stuck(s, "no such field")>> ELSE <<p[1], Down(p[2], R.fields[i.args[1]].pos), p[3]>>
    [] i.op = "ArrayElement" -> LET p == TLCEval(At(R, F, pc + 1, s)) n == TLCEval(Val1(R, F, p[1], p[3])) IN
         IF n[3].stop # "" THEN <<n[1], Nowhere, n[3]>>
         ELSE IF ~Fits(R, i.args[1], RdVar(n[3], p[2])) THEN <<pc, Nowhere, Stuck(s, "an element of something else")>>
         ELSE IF n[2].k = "int" THEN <<n[1], Down(p[2], n[2].n + 1), n[3]>>
         ELSE IF n[2].k = "lit" THEN <<n[1], Down(p[2], n[2].n + 1), n[3]>> ELSE <<n[1], Nowhere, n[3]>>
    [] OTHER -> LET v == TLCEval(Val1(R, F, pc, s)) IN <<v[1], PathOf("tmp", "", 0, v[2]), v[3]>>

\* whether the operand at pc is a temporary
Temp(F, pc) == IF pc > Len(F.code) THEN TRUE
  ELSE LET o == F.code[pc].op IN
       CASE o \in Consts \cup {"Local", "Param", "ObjectField", "This", "Deref"} -> FALSE
         [] o = "StructField" -> Temp(F, pc + 1)
         [] o = "ArrayElement" -> Temp(F, pc + 1)
         [] o = "Context" -> LET t == JumpTo(F, pc, F.code[pc].args[1]) IN ~(t > 1 /\ F.code[t - 1].op = "ObjectField")
         [] OTHER -> TRUE

\* n operands in a row: <<next, values, state>>
Many(R, F, pc, n, s) == FoldLeft(LAMBDA acc, m : LET v == TLCEval(Val1(R, F, acc[1], acc[3])) IN <<v[1], Append(acc[2], v[2]), v[3]>>, <<pc, <<>>, s>>, [m \in 1..n |-> m])
ArgCount(op) == CASE op \in {"ArrayClear", "ArraySize", "ArrayPop", "ArrayLast"} -> 0 [] op = "ArrayInsert" -> 2 [] OTHER -> 1
Val1(R, F, pc, s) ==
  IF s.stop # "" THEN <<pc, NoVal, s>>
  ELSE IF pc > Len(F.code) THEN <<pc, NoVal, Stuck(s, "operand missing")>>
  ELSE LET i == F.code[pc] IN
  CASE i.op = "I32Const" -> <<pc + 1, IntV(i.args[1]), s>>
    [] i.op \in {"I32Zero", "I32One"} -> <<pc + 1, IntV(IF i.op = "I32One" THEN 1 ELSE 0), s>>
    [] i.op \in {"TrueConst", "FalseConst"} -> <<pc + 1, BoolV(i.op = "TrueConst"), s>>
    [] i.op = "StringConst" -> <<pc + 1, TextV(i.args[1]), s>>
    [] i.op = "U64Const" -> <<pc + 1, Val("lit", "Uint64", i.args[1], <<>>), s>>
    [] i.op \in Consts -> <<pc + 1, Lit(ConstType[i.op], i.args[1]), s>>
    [] i.op = "Null" -> <<pc + 1, RefV(0), s>>
    [] i.op = "WeakRefNull" -> <<pc + 1, WRefV(0), s>>
    [] i.op = "This" -> <<pc + 1, RefV(s.this), s>>
    [] i.op = "Nop" -> <<pc + 1, NoVal, s>>
    [] i.op = "EnumConst" -> IF i.args[1] \in DOMAIN R.enums /\ \E m \in DOMAIN R.enums[i.args[1]] : R.enums[i.args[1]][m].x = i.args[2]
         THEN LET es == R.enums[i.args[1]] IN <<pc + 1, EnumV(i.args[1], es[CHOOSE m \in DOMAIN es : es[m].x = i.args[2]].n), s>>
         ELSE <<pc, NoVal, Stuck(s, "no such enum member")>>
    [] i.op \in {"Local", "Param", "ObjectField", "StructField", "ArrayElement"} -> LET p == TLCEval(At(R, F, pc, s)) IN <<p[1], RdVar(p[3], p[2]), p[3]>>
    [] i.op = "Context" ->
         LET o == TLCEval(Val1(R, F, pc + 1, s)) out == JumpTo(F, pc, i.args[1]) IN
         IF o[3].stop # "" THEN <<pc, NoVal, o[3]>>
         ELSE IF o[2].k = "wref" THEN <<pc, NoVal, Stuck(s, "a weak reference as context")>>
         ELSE IF out = 0 THEN <<pc, NoVal, Stuck(s, "context ends nowhere")>>
         ELSE IF ~(IsRef(o[2]) /\ o[2].n > 0) THEN <<out, NoVal, o[3]>>
         ELSE IF o[1] > Len(F.code) THEN <<pc, NoVal, Stuck(s, "operand missing")>>
         ELSE IF F.code[o[1]].op \notin {"ObjectField", "InvokeStatic", "InvokeVirtual"} THEN <<pc, NoVal, Stuck(s, "context of what?")>>
         ELSE IF F.code[o[1]].op = "ObjectField" THEN LET p == TLCEval(At(R, F, pc, s)) IN <<p[1], RdVar(p[3], p[2]), p[3]>>
         ELSE LET v == TLCEval(Invoke(R, F, o[1], o[2].n, o[3].this, o[3])) IN
              IF v[3].stop = "" /\ v[1] # out THEN <<pc, NoVal, Stuck(s, "context ends elsewhere")>> ELSE v
    [] i.op \in {"InvokeStatic", "InvokeVirtual"} -> Invoke(R, F, pc, s.this, s.this, s)
    [] i.op = "Conditional" ->
         LET c == TLCEval(Val1(R, F, pc + 1, s)) no == JumpTo(F, pc, i.args[1]) out == JumpTo(F, pc, i.args[2]) IN
         IF c[3].stop # "" THEN c
         ELSE IF no = 0 \/ out = 0 THEN <<pc, NoVal, Stuck(s, "branch to nowhere")>>
         ELSE LET v == TLCEval(Val1(R, F, IF True(c[2]) THEN c[1] ELSE no, c[3])) IN
              IF v[3].stop = "" /\ v[1] # (IF True(c[2]) THEN no ELSE out) THEN <<pc, NoVal, Stuck(s, "branch ends elsewhere")>> ELSE <<out, v[2], v[3]>>
    [] i.op = "Construct" -> LET c == i.args[2] IN
         IF c \notin DOMAIN R.classes THEN <<pc, NoVal, Stuck(s, "no such struct")>>
         ELSE IF i.args[1] = 0 THEN <<pc + 1, ZeroOf(R, c), s>>
         ELSE LET n == Len(R.classes[c].fields) v == TLCEval(Many(R, F, pc + 1, n, s)) IN
              IF i.args[1] # n THEN <<pc, NoVal, Stuck(s, "wrong number of fields")>> ELSE <<v[1], StructV(c, v[2]), v[3]>>
    [] i.op = "New" -> IF i.args[1] \notin DOMAIN R.classOf THEN <<pc, NoVal, Stuck(s, "no such class")>>
                       ELSE LET t == New(s, FreshObj(R, R.classOf[i.args[1]])) IN <<pc + 1, RefV(Len(t.heap)), t>>
    [] i.op = "DynamicCast" -> LET v == TLCEval(Val1(R, F, pc + 1, s)) IN
         IF v[3].stop # "" THEN v
         ELSE IF v[2].k = "wref" THEN <<pc, NoVal, Stuck(s, "cast of a weak reference")>>
         ELSE <<v[1], IF IsRef(v[2]) /\ v[2].n > 0 /\ i.args[1] \in Range(Lineage(R, v[3].heap[v[2].n].c)) THEN RefV(v[2].n) ELSE RefV(0), v[3]>>
    [] i.op \in ArrayOps ->
         LET p == TLCEval(At(R, F, pc + 1, s)) v == TLCEval(Many(R, F, p[1], ArgCount(i.op), p[3])) old == RdVar(v[3], p[2])
             args == [m \in DOMAIN v[2] |-> IF v[2][m].k = "lit" /\ v[2][m].t = "Uint64" THEN IntV(v[2][m].n) ELSE v[2][m]]
             r == TLCEval(ArrayFun(i.op, old, args, NoVal)) IN
         IF v[3].stop # "" THEN <<v[1], NoVal, v[3]>>
         ELSE IF ~Fits(R, i.args[1], old) THEN <<pc, NoVal, Stuck(s, "array function on something else")>>
         ELSE <<v[1], r[1], WrVar(v[3], p[2], r[2])>>
    [] i.op \in {"Equals", "NotEquals"} -> LET v == TLCEval(Many(R, F, pc + 1, 2, s)) IN
         IF v[3].stop # "" THEN <<v[1], NoVal, v[3]>>
         ELSE IF ~Fits(R, i.args[1], v[2][1]) THEN <<pc, NoVal, Stuck(s, "comparison of something else")>>
         ELSE <<v[1], BoolV(Same(v[2][1], v[2][2]) = (i.op = "Equals")), v[3]>>
    [] i.op \in {"ToString", "ToVariant", "EnumToI32"} -> LET v == TLCEval(Val1(R, F, pc + 1, s)) x == v[2] IN
         IF v[3].stop # "" THEN v
         ELSE IF ~Fits(R, i.args[1], x) THEN <<pc, NoVal, Stuck(s, "conversion of something else")>>
         ELSE <<v[1], CASE i.op = "ToString" -> IF x.k = "none" THEN NoVal ELSE StrV(<<PrintedV(CatOf(x), x)>>) [] i.op = "ToVariant" -> Val("variant", CatOf(x), 0, <<x>>) [] OTHER -> IntV(x.n), v[3]>>
    [] i.op = "I32ToEnum" -> LET v == TLCEval(Val1(R, F, pc + 1, s)) IN <<v[1], EnumV(i.args[1], v[2].n), v[3]>>
    [] i.op = "FromVariant" -> LET v == TLCEval(Val1(R, F, pc + 1, s)) IN
         IF v[3].stop = "" /\ v[2].k = "variant" /\ ~Fits(R, i.args[1], v[2].e[1]) THEN <<pc, NoVal, Stuck(s, "a variant of something else")>>
         ELSE <<v[1], IF v[2].k = "variant" THEN v[2].e[1] ELSE NoVal, v[3]>>
    [] i.op = "VariantToString" -> LET v == TLCEval(Val1(R, F, pc + 1, s)) IN <<v[1], StrV(<<Val("of", "variant", 0, <<v[2]>>)>>), v[3]>>
    [] i.op = "VariantTypeName" -> LET v == TLCEval(Val1(R, F, pc + 1, s)) IN <<v[1], Lit("TypeName", v[2].t), v[3]>>
    [] i.op = "VariantIsDefined" -> LET v == TLCEval(Val1(R, F, pc + 1, s)) IN <<v[1], BoolV(TRUE), v[3]>>
    [] i.op \in {"AsRef", "Deref"} -> LET v == TLCEval(Val1(R, F, pc + 1, s)) IN
         IF i.op = "AsRef" /\ v[3].stop = "" /\ ~Fits(R, i.args[1], v[2]) THEN <<pc, NoVal, Stuck(s, "a reference to something else")>> ELSE v
    [] i.op \in {"RefToWeakRef", "RefToBool"} -> LET v == TLCEval(Val1(R, F, pc + 1, s)) IN
         IF v[3].stop # "" THEN v ELSE IF v[2].k \notin {"ref", "none"} THEN <<pc, NoVal, Stuck(s, "not a strong reference")>>
         ELSE <<v[1], IF v[2].k = "none" THEN (IF i.op = "RefToBool" THEN BoolV(FALSE) ELSE NoVal) ELSE IF i.op = "RefToBool" THEN BoolV(v[2].n > 0) ELSE WRefV(v[2].n), v[3]>>
    [] i.op \in {"WeakRefToRef", "WeakRefToBool"} -> LET v == TLCEval(Val1(R, F, pc + 1, s)) IN
         IF v[3].stop # "" THEN v ELSE IF v[2].k \notin {"wref", "none"} THEN <<pc, NoVal, Stuck(s, "not a weak reference")>>
         ELSE <<v[1], IF v[2].k = "none" THEN (IF i.op = "WeakRefToBool" THEN BoolV(FALSE) ELSE NoVal) ELSE IF i.op = "WeakRefToBool" THEN BoolV(v[2].n > 0) ELSE RefV(v[2].n), v[3]>>
    [] i.op = "Assign" -> LET p == TLCEval(At(R, F, pc + 1, s)) v == TLCEval(Val1(R, F, p[1], p[3])) IN <<v[1], NoVal, WrVar(v[3], p[2], v[2])>>
    [] OTHER -> <<pc, NoVal, Stuck(s, "unexpected " \o i.op)>>

\* the call at pc, on object this; arguments are evaluated on behalf of object me
Invoke(R, F, pc, this, me, s) ==
  LET i == F.code[pc]
      g == IF i.op = "InvokeStatic" THEN i.args[3] ELSE IF this = 0 THEN "" ELSE Answering(R, s.heap[this].c, i.args[3]) IN
  IF g \notin DOMAIN R.fns THEN <<pc, NoVal, Stuck(s, "no such function")>>
  ELSE
  LET f == R.fns[g]
      flags == i.args[4]
      Arg(acc, m) ==
        LET q == f.params[m] at == acc.pc IN
        IF acc.s.stop # "" THEN acc
        ELSE IF at > Len(F.code) THEN [acc EXCEPT !.s = Stuck(@, "operand missing")]
        ELSE IF F.code[at].op = "Nop" THEN [acc EXCEPT !.pc = at + 1, !.v = Append(@, IF f.native THEN NoVal ELSE ZeroOf(R, q.type)), !.p = Append(@, Nowhere),
                                                       !.s = IF q.opt THEN @ ELSE Stuck(@, "argument missing")]
        ELSE IF F.code[at].op = "ParamEnd" THEN [acc EXCEPT !.s = Stuck(@, "argument missing")]
        ELSE IF q.lazy /\ F.code[at].op # "Skip" THEN [acc EXCEPT !.s = Stuck(@, "not on demand")]
        ELSE IF ~q.lazy /\ F.code[at].op = "Skip" THEN [acc EXCEPT !.s = Stuck(@, "on demand")]
        ELSE IF q.lazy THEN
             LET out == JumpTo(F, at, F.code[at].args[1]) v == TLCEval(Val1(R, F, at + 1, acc.s)) IN
             IF out = 0 THEN [acc EXCEPT !.s = Stuck(@, "skips to nowhere")]
             ELSE IF Needed(f.name, acc.v[1]) THEN IF v[3].stop = "" /\ v[1] # out THEN [acc EXCEPT !.s = Stuck(@, "skips elsewhere")]
                  ELSE [pc |-> out, s |-> v[3], v |-> Append(acc.v, v[2]), p |-> Append(acc.p, Nowhere)]
             ELSE [acc EXCEPT !.pc = out, !.v = Append(@, acc.v[1]), !.p = Append(@, Nowhere)]
        ELSE IF F.code[at].op = "AsRef" /\ Bit(flags, m - 1) # Temp(F, at + 1) THEN [acc EXCEPT !.s = Stuck(@, "temporary or not?")]
        ELSE IF q.out THEN LET p == TLCEval(At(R, F, at, acc.s)) IN [pc |-> p[1], s |-> p[3], v |-> Append(acc.v, RdVar(p[3], p[2])), p |-> Append(acc.p, p[2])]
        ELSE LET v == TLCEval(Val1(R, F, at, acc.s)) IN [pc |-> v[1], s |-> v[3], v |-> Append(acc.v, v[2]), p |-> Append(acc.p, Nowhere)]
      a == TLCEval(FoldLeft(Arg, [pc |-> pc + 1, s |-> [s EXCEPT !.this = me], v |-> <<>>, p |-> <<>>], [m \in DOMAIN f.params |-> m]))
      out == JumpTo(F, pc, i.args[1]) IN
  IF a.s.stop # "" THEN <<pc, NoVal, a.s>>
  ELSE IF a.pc > Len(F.code) \/ F.code[a.pc].op # "ParamEnd" THEN <<pc, NoVal, Stuck(s, "too many arguments")>>
  ELSE IF out # a.pc + 1 THEN <<pc, NoVal, Stuck(s, "call ends elsewhere")>>
  ELSE IF \E m \in DOMAIN f.params : m <= Len(a.v) /\ ~f.params[m].opt /\ f.params[m].type \in DOMAIN R.types /\ R.types[f.params[m].type].k # "sref" /\ ~Fits(R, f.params[m].type, a.v[m])
       THEN <<pc, NoVal, Stuck(s, "argument of another type")>>
  ELSE IF f.native THEN
       LET r == TLCEval(Native(f.name, (IF ~f.static THEN <<RefV(this)>> ELSE <<>>) \o a.v, a.s))
           t == IF IsOp(f.name) /\ OpTab[f.name][1] = "asg" THEN WrVar(r[2], a.p[1], r[1]) ELSE r[2] IN <<out, r[1], [t EXCEPT !.this = me]>>
  ELSE IF a.s.fuel <= 0 THEN <<pc, NoVal, Stuck(s, "out of fuel")>>
  ELSE LET env == [x \in {f.params[m].ix : m \in DOMAIN f.params} |-> a.v[CHOOSE m \in DOMAIN f.params : f.params[m].ix = x]]
                  @@ [x \in {f.locals[m].ix : m \in DOMAIN f.locals} |-> ZeroOf(R, f.locals[CHOOSE m \in DOMAIN f.locals : f.locals[m].ix = x].type)]
           t == TLCEval(Exec(R, f, 1, [a.s EXCEPT !.env = env, !.this = this, !.fuel = @ - 1]))
           back == [t EXCEPT !.env = a.s.env, !.this = me, !.stop = IF @ = "ret" THEN "" ELSE @, !.ret = NoVal]
           Out(acc, m) == IF f.params[m].out THEN WrVar(acc, a.p[m], t.env[f.params[m].ix]) ELSE acc
       IN <<out, IF t.stop = "ret" THEN t.ret ELSE NoVal, FoldLeft(Out, back, [m \in DOMAIN f.params |-> m])>>

\* runs on from pc
Exec(R, F, pc, s) ==
  IF s.stop # "" \/ pc > Len(F.code) THEN s
  ELSE IF s.fuel <= 0 THEN Stuck(s, "out of fuel")
  ELSE LET i == F.code[pc] r == s
           Go(n) == IF n = 0 THEN Stuck(s, "jump to nowhere") ELSE Exec(R, F, n, TLCEval([r EXCEPT !.fuel = @ - (IF n <= pc THEN 1 ELSE 0)])) IN
  CASE i.op = "Nop" -> Exec(R, F, pc + 1, s)
    [] i.op = "SwitchDefault" -> Exec(R, F, pc + 1, s)
    [] i.op = "Jump" -> Go(JumpTo(F, pc, i.args[1]))
    [] i.op = "SwitchLabel" -> Go(JumpTo(F, pc, i.args[2]))
    [] i.op = "JumpIfFalse" -> LET c == TLCEval(Val1(R, F, pc + 1, r)) IN
         IF c[3].stop # "" THEN c[3] ELSE IF True(c[2]) THEN Exec(R, F, c[1], c[3])
         ELSE LET n == JumpTo(F, pc, i.args[1]) IN IF n = 0 THEN Stuck(s, "jump to nowhere") ELSE Exec(R, F, n, c[3])
    [] i.op = "Switch" -> LET v == TLCEval(Val1(R, F, pc + 1, r)) n == JumpTo(F, pc, i.args[2]) IN
         IF v[3].stop # "" THEN v[3] ELSE IF ~Fits(R, i.args[1], v[2]) THEN Stuck(s, "switch over something else")
         ELSE IF n = 0 THEN Stuck(s, "jump to nowhere") ELSE Match(R, F, n, v[2], v[3])
    [] i.op = "Return" -> IF pc < Len(F.code) /\ F.code[pc + 1].op = "Nop" THEN [s EXCEPT !.stop = "ret", !.ret = NoVal]
         ELSE LET v == TLCEval(Val1(R, F, pc + 1, r)) IN IF v[3].stop # "" THEN v[3] ELSE [v[3] EXCEPT !.stop = "ret", !.ret = v[2]]
    [] OTHER -> LET v == TLCEval(Val1(R, F, pc, r)) IN IF v[3].stop # "" THEN v[3] ELSE Exec(R, F, v[1], v[3])
\* looks for the case
Match(R, F, pc, v, s) ==
  IF s.stop # "" \/ pc > Len(F.code) THEN s
  ELSE IF F.code[pc].op # "SwitchLabel" THEN Exec(R, F, pc, s)
  ELSE LET i == F.code[pc] m == TLCEval(Val1(R, F, pc + 1, s)) body == JumpTo(F, pc, i.args[2]) next == JumpTo(F, pc, i.args[1]) IN
       IF m[3].stop # "" THEN m[3]
       ELSE IF body = 0 \/ next = 0 THEN Stuck(s, "case to nowhere")
       ELSE IF Same(v, m[2]) THEN Exec(R, F, body, TLCEval([m[3] EXCEPT !.fuel = @ - (IF body <= pc THEN 1 ELSE 0)])) ELSE Match(R, F, next, v, m[3])
=============================================================================
