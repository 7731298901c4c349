-------------------------------- MODULE RsVal -------------------------------
(***************************************************************************)
(* What programs compute with, shared by the machine that runs source      *)
(* (RsSrc) and the machine that runs bytecode (RsVm).                      *)
(* A value is [k, t, n, e]: its kind, its type's name, a number, its parts.*)
(* The state both machines change:                                         *)
(*   log   the calls of native functions so far, with their arguments      *)
(*   orc   the answers Test and Pick will still give                       *)
(*   heap  objects [c: class, f: field -> value]                           *)
(*   env   the variables of the function that runs, this: its object       *)
(*   stop  "" running, "ret" returning, "brk" breaking, "cut" no more      *)
(*         answers; anything else: what went wrong                         *)
(*   ret   what is returned; fuel: how many steps are left                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Val(k, t, n, e) == [k |-> k, t |-> t, n |-> n, e |-> e]
NoVal == Val("none", "", 0, <<>>)
IntV(n) == Val("int", "Int32", n, <<>>)
BoolV(b) == Val("bool", "Bool", IF b THEN 1 ELSE 0, <<>>)
\* strings are sequences of pieces: literal text, and printed values
Piece(text) == Val("lit", text, 0, <<>>)
\* (only the first pieces of a long one, and only the outside of a printed string: they must not grow out of hand)
Cut(pieces) == IF Len(pieces) <= 12 THEN pieces ELSE SubSeq(pieces, 1, 12)
StrV(pieces) == Val("str", "String", 0, Cut(pieces))
PrintedV(cat, v) == Val("of", cat, 0, IF v.k = "str" THEN [m \in DOMAIN v.e |-> [v.e[m] EXCEPT !.e = <<>>]] ELSE <<v>>)
TextV(text) == StrV(IF text = "" THEN <<>> ELSE <<Piece(text)>>)
Lit(t, text) == Val("lit", t, 0, <<Val("lit", text, 0, <<>>)>>)
RefV(id) == Val("ref", "", id, <<>>)
WRefV(id) == Val("wref", "", id, <<>>)
ArrV(e) == Val("arr", "", 0, e)
StructV(s, e) == Val("struct", s, 0, e)
EnumV(t, n) == Val("enum", t, n, <<>>)
True(v) == v.k = "bool" /\ v.n = 1
IsRef(v) == v.k \in {"ref", "wref"}

Start(orc, fuel) == [log |-> <<>>, orc |-> orc, heap |-> <<>>, env |-> <<>>, this |-> 0, stop |-> "", ret |-> NoVal, fuel |-> fuel]
Stuck(s, why) == IF s.stop = "" THEN [s EXCEPT !.stop = why] ELSE s
Log(s, f, args) == [s EXCEPT !.log = Append(@, <<f, args>>)]
New(s, obj) == [s EXCEPT !.heap = Append(@, obj)]

\* numbers stay small; what matters is that operands do not trade places unnoticed
Small(n) == n % 997
Arith(op, a, b) == CASE op = "Add" -> Small(a + b) [] op = "Subtract" -> Small(a - b) [] op = "Multiply" -> Small(a * b)
                     [] op = "Divide" -> IF b = 0 THEN 0 ELSE Small(a \div b) [] op = "Modulo" -> IF b = 0 THEN 0 ELSE Small(a % b)
                     [] op = "Or" -> Small(3 * a + 5 * b) [] op = "Xor" -> Small(7 * a + 11 * b) [] op = "And" -> Small(13 * a + 17 * b)
Relate(op, a, b) == CASE op = "Less" -> a < b [] op = "LessEqual" -> a <= b [] op = "Greater" -> a > b [] op = "GreaterEqual" -> a >= b
                      [] op = "Equal" -> a = b [] op = "NotEqual" -> a # b
ArithOps == {"Add", "Subtract", "Multiply", "Divide", "Modulo", "Or", "Xor", "And"}
RelOps == {"Less", "LessEqual", "Greater", "GreaterEqual", "Equal", "NotEqual"}
AsgOps == {"Add", "Subtract", "Multiply", "Divide", "Or", "And"}
\* the operators there are, and the functions that stand for them
IntOp(op) == "Operator" \o op \o ";Int32Int32;Int32"
RelOp(op) == "Operator" \o op \o ";Int32Int32;Bool"
AsgOp(op) == "OperatorAssign" \o op \o ";OutInt32Int32;Int32"
AddStr == "OperatorAdd;Script_RefStringScript_RefString;String"
OpTab == [f \in {IntOp(op) : op \in ArithOps} |-> <<"arith", CHOOSE op \in ArithOps : IntOp(op) = f>>]
      @@ [f \in {RelOp(op) : op \in RelOps} |-> <<"rel", CHOOSE op \in RelOps : RelOp(op) = f>>]
      @@ [f \in {AsgOp(op) : op \in AsgOps} |-> <<"asg", CHOOSE op \in AsgOps : AsgOp(op) = f>>]
      @@ (AddStr :> <<"str", "Add">>) @@ ("OperatorLogicAnd;BoolBool;Bool" :> <<"and", "">>) @@ ("OperatorLogicOr;BoolBool;Bool" :> <<"or", "">>)
      @@ ("OperatorLogicNot;Bool;Bool" :> <<"not", "">>) @@ ("OperatorLogicNot" :> <<"not", "">>) @@ ("OperatorNeg" :> <<"neg", "">>) @@ ("OperatorBitNot" :> <<"bitnot", "">>) @@ ("OperatorNeg;Int32;Int32" :> <<"neg", "">>) @@ ("OperatorBitNot;Int32;Int32" :> <<"bitnot", "">>)
IsOp(f) == f \in DOMAIN OpTab

\* what an operator makes of its operands, and what it leaves in the first
OpValue(f, a) ==
  LET o == OpTab[f] IN
  CASE o[1] = "arith" -> IF a[1].k = "int" /\ a[2].k = "int" THEN IntV(Arith(o[2], a[1].n, a[2].n)) ELSE NoVal
    [] o[1] = "asg" -> IF a[1].k = "int" /\ a[2].k = "int" THEN IntV(Arith(o[2], a[1].n, a[2].n)) ELSE NoVal
    [] o[1] = "rel" -> IF a[1].k = "int" /\ a[2].k = "int" THEN BoolV(Relate(o[2], a[1].n, a[2].n)) ELSE NoVal
    [] o[1] = "str" -> IF a[1].k = "str" /\ a[2].k = "str" THEN StrV(a[1].e \o a[2].e) ELSE NoVal
    [] o[1] = "and" -> BoolV(True(a[1]) /\ True(a[2]))
    [] o[1] = "or" -> BoolV(True(a[1]) \/ True(a[2]))
    [] o[1] = "not" -> BoolV(~True(a[1]))
    [] o[1] = "neg" -> IF a[1].k = "int" THEN IntV(Small(-a[1].n)) ELSE NoVal
    [] o[1] = "bitnot" -> IF a[1].k = "int" THEN IntV(Small(19 * a[1].n + 23)) ELSE NoVal
\* whether the second operand is needed once the first is known
Lazy(f) == IsOp(f) /\ OpTab[f][1] \in {"and", "or"}
Needed(f, a) == IF OpTab[f][1] = "and" THEN True(a) ELSE ~True(a)

\* a native function: every call is seen; what comes back depends on what was seen, or on the answers left
Native(f, args, s) ==
  CASE s.stop # "" -> <<NoVal, s>>
    [] IsOp(f) -> <<OpValue(f, args), s>>
    [] f \in {"Test", "Pick"} -> IF s.orc = <<>> THEN <<NoVal, Stuck(s, "cut")>>
         ELSE LET t == [Log(s, f, args) EXCEPT !.orc = Tail(@)] IN <<IF f = "Test" THEN BoolV(s.orc[1] = 1) ELSE IntV(s.orc[1]), t>>
    [] f = "Obs" -> <<IntV((7 * Len(s.log) + 3) % 31), Log(s, f, args)>>
    [] f = "Word" -> <<StrV(<<Val("of", "", Len(s.log), <<>>)>>), Log(s, f, args)>>
    [] OTHER -> <<NoVal, Log(s, f, args)>>

\* ---------------------------------------------------------------- places
\* r: where the path starts: a variable ("env", x), a field of an object ("obj", o, x), a value that has no place ("tmp", v), or nowhere
\* st: the elements and fields it goes through
PathOf(r, x, o, v) == [r |-> r, x |-> x, o |-> o, v |-> v, st |-> <<>>]
Nowhere == PathOf("no", "", 0, NoVal)
Down(p, n) == [p EXCEPT !.st = Append(@, n)]
Part(v, n) == IF v.k \in {"arr", "struct"} /\ n \in DOMAIN v.e THEN v.e[n] ELSE NoVal
Parts(v, st) == FoldLeft(Part, v, st)
RECURSIVE Put(_, _, _)
Put(v, st, w) == IF st = <<>> THEN w
                 ELSE IF v.k \in {"arr", "struct"} /\ st[1] \in DOMAIN v.e THEN [v EXCEPT !.e[st[1]] = Put(@, Tail(st), w)] ELSE v

\* ---------------------------------------------------------------- arrays
\* what the array functions make of an array: <<result, the array afterwards>>; z: the element that means "none"
Same(a, b) == a.k = b.k /\ a.n = b.n /\ a.e = b.e
Find(v, x) == {n \in DOMAIN v.e : Same(v.e[n], x)}
ArrayFun(op, v, a, z) ==
  IF v.k # "arr" THEN <<NoVal, v>>
  ELSE CASE op = "ArrayClear" -> <<NoVal, ArrV(<<>>)>>
    [] op = "ArraySize" -> <<IntV(Len(v.e)), v>>
    [] op \in {"ArrayResize", "ArrayGrow"} ->
         IF a[1].k # "int" THEN <<NoVal, v>>
         ELSE LET n == IF op = "ArrayGrow" THEN Len(v.e) + a[1].n ELSE a[1].n IN
              IF n > 60 THEN <<NoVal, v>> ELSE <<NoVal, ArrV([m \in 1..n |-> IF m <= Len(v.e) THEN v.e[m] ELSE z])>>
    [] op \in {"ArrayFindFirst", "ArrayFindLast"} ->
         LET S == Find(v, a[1]) IN
         <<IF S = {} THEN z ELSE Val("found", op, IF op = "ArrayFindFirst" THEN CHOOSE n \in S : \A m \in S : n <= m ELSE CHOOSE n \in S : \A m \in S : n >= m, <<a[1]>>), v>>
    [] op = "ArrayContains" -> <<BoolV(Find(v, a[1]) # {}), v>>
    [] op = "ArrayCount" -> <<IntV(Cardinality(Find(v, a[1]))), v>>
    [] op = "ArrayPush" -> <<NoVal, IF Len(v.e) > 60 THEN v ELSE ArrV(Append(v.e, a[1]))>>
    [] op = "ArrayPop" -> IF v.e = <<>> THEN <<z, v>> ELSE <<v.e[Len(v.e)], ArrV(Front(v.e))>>
    [] op = "ArrayInsert" -> IF a[1].k # "int" \/ a[1].n > Len(v.e) \/ Len(v.e) > 60 THEN <<NoVal, v>>
         ELSE <<NoVal, ArrV(SubSeq(v.e, 1, a[1].n) \o <<a[2]>> \o SubSeq(v.e, a[1].n + 1, Len(v.e)))>>
    [] op = "ArrayRemove" -> LET S == Find(v, a[1]) IN
         IF S = {} THEN <<BoolV(FALSE), v>> ELSE <<BoolV(TRUE), ArrV(RemoveAt(v.e, CHOOSE n \in S : \A m \in S : n <= m))>>
    [] op = "ArrayErase" -> IF a[1].k # "int" \/ a[1].n >= Len(v.e) THEN <<BoolV(FALSE), v>> ELSE <<BoolV(TRUE), ArrV(RemoveAt(v.e, a[1].n + 1))>>
    [] op = "ArrayLast" -> IF v.e = <<>> THEN <<z, v>> ELSE <<v.e[Len(v.e)], v>>
ArrayOps == {"ArrayClear", "ArraySize", "ArrayResize", "ArrayGrow", "ArrayFindFirst", "ArrayFindLast", "ArrayContains", "ArrayCount", "ArrayPush",
             "ArrayPop", "ArrayInsert", "ArrayRemove", "ArrayErase", "ArrayLast"}
=============================================================================
