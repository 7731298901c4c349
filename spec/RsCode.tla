------------------------------- MODULE RsCode -------------------------------
(***************************************************************************)
(* The bytecode of a REDscript function: the instruction set, the size an  *)
(* instruction occupies in the running game (which is what every jump and  *)
(* every code location is measured in), and the way it is written to a     *)
(* bundle.                                                                 *)
(*                                                                         *)
(* An instruction is a record [op, args].  Its operands are described by   *)
(* one table: position n of OpTable (counted from 0) is opcode n.  From the *)
(* operand kinds alone follow                                              *)
(*   - the size of the instruction in memory (RuntimeSize),                *)
(*   - the bytes in the bundle (EncodeInstr, a sequence of typed tokens),  *)
(*   - the bias of a jump: in memory a jump is relative to the start of its *)
(*     instruction; in the bundle it is relative to the end of the operand *)
(*     that holds it, counted in memory sizes.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Kinds == {"i8","i16","i32","i64","u8","u16","u32","u64","f32","f64",
          "idx","idx4","bool","jump","str"}

\* bytes of an operand in the game's memory (indices are 8 byte pointers there, except for strings)
MemSize(k) == CASE k \in {"i8","u8","bool"} -> 1
                [] k \in {"i16","u16","jump"} -> 2
                [] k \in {"i32","u32","f32","idx4"} -> 4
                [] k \in {"i64","u64","f64","idx"} -> 8
                [] k = "str" -> 4

N0 == <<>>
OpTable == <<
  <<"Nop", N0>>, <<"Null", N0>>, <<"I32One", N0>>, <<"I32Zero", N0>>,
  <<"I8Const", <<"i8">>>>, <<"I16Const", <<"i16">>>>, <<"I32Const", <<"i32">>>>, <<"I64Const", <<"i64">>>>,
  <<"U8Const", <<"u8">>>>, <<"U16Const", <<"u16">>>>, <<"U32Const", <<"u32">>>>, <<"U64Const", <<"u64">>>>,
  <<"F32Const", <<"f32">>>>, <<"F64Const", <<"f64">>>>, <<"NameConst", <<"idx">>>>,
  <<"EnumConst", <<"idx","idx">>>>, <<"StringConst", <<"idx4">>>>, <<"TweakDbIdConst", <<"idx">>>>,
  <<"ResourceConst", <<"idx">>>>, <<"TrueConst", N0>>, <<"FalseConst", N0>>,
  <<"Breakpoint", <<"u16","u32","u16","u16","bool","u64">>>>, <<"Assign", N0>>, <<"Target", N0>>,
  <<"Local", <<"idx">>>>, <<"Param", <<"idx">>>>, <<"ObjectField", <<"idx">>>>, <<"ExternalVar", N0>>,
  <<"Switch", <<"idx","jump">>>>, <<"SwitchLabel", <<"jump","jump">>>>, <<"SwitchDefault", N0>>,
  <<"Jump", <<"jump">>>>, <<"JumpIfFalse", <<"jump">>>>, <<"Skip", <<"jump">>>>,
  <<"Conditional", <<"jump","jump">>>>, <<"Construct", <<"u8","idx">>>>,
  <<"InvokeStatic", <<"jump","u16","idx","u16">>>>, <<"InvokeVirtual", <<"jump","u16","idx","u16">>>>,
  <<"ParamEnd", N0>>, <<"Return", N0>>, <<"StructField", <<"idx">>>>, <<"Context", <<"jump">>>>,
  <<"Equals", <<"idx">>>>, <<"RefStringEqualsString", <<"idx">>>>, <<"StringEqualsRefString", <<"idx">>>>,
  <<"NotEquals", <<"idx">>>>, <<"RefStringNotEqualsString", <<"idx">>>>, <<"StringNotEqualsRefString", <<"idx">>>>,
  <<"New", <<"idx">>>>, <<"Delete", N0>>, <<"This", N0>>, <<"StartProfiling", <<"str","u8">>>>,
  <<"ArrayClear", <<"idx">>>>, <<"ArraySize", <<"idx">>>>, <<"ArrayResize", <<"idx">>>>,
  <<"ArrayFindFirst", <<"idx">>>>, <<"ArrayFindFirstFast", <<"idx">>>>, <<"ArrayFindLast", <<"idx">>>>,
  <<"ArrayFindLastFast", <<"idx">>>>, <<"ArrayContains", <<"idx">>>>, <<"ArrayContainsFast", <<"idx">>>>,
  <<"ArrayCount", <<"idx">>>>, <<"ArrayCountFast", <<"idx">>>>, <<"ArrayPush", <<"idx">>>>,
  <<"ArrayPop", <<"idx">>>>, <<"ArrayInsert", <<"idx">>>>, <<"ArrayRemove", <<"idx">>>>,
  <<"ArrayRemoveFast", <<"idx">>>>, <<"ArrayGrow", <<"idx">>>>, <<"ArrayErase", <<"idx">>>>,
  <<"ArrayEraseFast", <<"idx">>>>, <<"ArrayLast", <<"idx">>>>, <<"ArrayElement", <<"idx">>>>,
  <<"ArraySort", <<"idx">>>>, <<"ArraySortByPredicate", <<"idx">>>>, <<"StaticArraySize", <<"idx">>>>,
  <<"StaticArrayFindFirst", <<"idx">>>>, <<"StaticArrayFindFirstFast", <<"idx">>>>,
  <<"StaticArrayFindLast", <<"idx">>>>, <<"StaticArrayFindLastFast", <<"idx">>>>,
  <<"StaticArrayContains", <<"idx">>>>, <<"StaticArrayContainsFast", <<"idx">>>>,
  <<"StaticArrayCount", <<"idx">>>>, <<"StaticArrayCountFast", <<"idx">>>>,
  <<"StaticArrayLast", <<"idx">>>>, <<"StaticArrayElement", <<"idx">>>>, <<"RefToBool", N0>>,
  <<"WeakRefToBool", N0>>, <<"EnumToI32", <<"idx","u8">>>>, <<"I32ToEnum", <<"idx","u8">>>>,
  <<"DynamicCast", <<"idx","u8">>>>, <<"ToString", <<"idx">>>>, <<"ToVariant", <<"idx">>>>,
  <<"FromVariant", <<"idx">>>>, <<"VariantIsDefined", N0>>, <<"VariantIsRef", N0>>, <<"VariantIsArray", N0>>,
  <<"VariantTypeName", N0>>, <<"VariantToString", N0>>, <<"WeakRefToRef", N0>>, <<"RefToWeakRef", N0>>,
  <<"WeakRefNull", N0>>, <<"AsRef", <<"idx">>>>, <<"Deref", <<"idx">>>> >>

OpNames == {OpTable[n][1] : n \in DOMAIN OpTable}
OpcodeOf == [o \in OpNames |-> (CHOOSE n \in DOMAIN OpTable : OpTable[n][1] = o) - 1]
KindsOf == [o \in OpNames |-> OpTable[OpcodeOf[o] + 1][2]]
\* "Target" is the assembler's label marker: it takes no space and never reaches a bundle.
RealOps == OpNames \ {"Target"}

\* Special string atoms stand for strings that do not fit in a TLA+ literal; the byte lengths are the
\* harness's contract (harness/core/src/atoms.rs).
AtomLen == [x \in {"~utf8"} |-> 8] @@ [x \in {"~jp"} |-> 6] @@ [x \in {"~quote"} |-> 3]
           @@ [x \in {"~bs"} |-> 3] @@ [x \in {"~nl"} |-> 5] @@ [x \in {"~big300"} |-> 300]
           @@ [x \in {"~big40000"} |-> 40000] @@ [x \in {"~big20000"} |-> 20000] @@ [x \in {"~empty"} |-> 0]
           @@ [x \in {"~big255"} |-> 255] @@ [x \in {"~big256"} |-> 256] @@ [x \in {"~big32767"} |-> 32767] @@ [x \in {"~big32768"} |-> 32768]
           @@ [x \in {"~big65500"} |-> 65500] @@ [x \in {"~big65535"} |-> 65535] @@ [x \in {"~big70000"} |-> 70000]
ByteLen(s) == IF s \in DOMAIN AtomLen THEN AtomLen[s] ELSE Len(s)

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

OperandMem(k, a) == IF k = "str" THEN 4 + ByteLen(a) ELSE MemSize(k)

RuntimeSize(i) ==
  IF i.op = "Target" THEN 0
  ELSE 1 + SumSeq([n \in DOMAIN KindsOf[i.op] |-> OperandMem(KindsOf[i.op][n], i.args[n])])

\* distance, in memory, from the start of the instruction to the end of operand n
BiasOf(op, n) == 1 + SumSeq([m \in 1..n |-> MemSize(KindsOf[op][m])])

Tok(t, v) == [t |-> t, v |-> v]

EncodeOperand(i, n) ==
  LET k == KindsOf[i.op][n]  a == i.args[n] IN
  CASE k = "jump" -> << Tok("i16", a - BiasOf(i.op, n)) >>
    [] k \in {"idx","idx4"} -> << Tok("u32", a) >>
    [] k = "bool" -> << Tok("u8", a) >>
    [] k = "str" -> << Tok("u32", ByteLen(a)), Tok("bytes", a) >>
    [] OTHER -> << Tok(k, a) >>

EncodeInstr(i) ==
  << Tok("u8", OpcodeOf[i.op]) >>
  \o FlattenSeq([n \in DOMAIN KindsOf[i.op] |-> EncodeOperand(i, n)])

\* ---- code blocks -------------------------------------------------------
RECURSIVE LocOf(_, _)
\* the location of instruction n (1-based); LocOf(code, Len(code)+1) is the size of the block
LocOf(code, n) == IF n = 1 THEN 0 ELSE LocOf(code, n - 1) + RuntimeSize(code[n - 1])
\* the same, all at once: where each instruction starts, and where the last one ends
LocTable(code) == FoldLeft(LAMBDA acc, i : Append(acc, acc[Len(acc)] + RuntimeSize(i)), <<0>>, code)
CodeSize(code) == FoldLeft(LAMBDA acc, i : acc + RuntimeSize(i), 0, code)
LocsOf(code) == SubSeq(LocTable(code), 1, Len(code))
EncodeCode(code) ==
  << Tok("u32", CodeSize(code)) >> \o FlattenSeq([n \in 1..Len(code) |-> EncodeInstr(code[n])])

\* the instruction boundary at location loc: the index of the instruction starting there, or 0
IndexAt(code, loc) ==
  LET S == {n \in 1..(Len(code) + 1) : LocOf(code, n) = loc}
  IN IF S = {} THEN 0 ELSE CHOOSE n \in S : TRUE

\* ---- labels ------------------------------------------------------------
\* resolving a label: the operand becomes the distance from this instruction to the label's location
ResolveInstr(i, loc, target) ==
  [i EXCEPT !.args = [n \in DOMAIN i.args |->
     IF KindsOf[i.op][n] = "jump" THEN target[i.args[n]] - loc ELSE i.args[n]]]

\* ---- what the format promises, checked by TLC on the table itself ------
ASSUME Len(OpTable) = 104
ASSUME Cardinality(OpNames) = 104
ASSUME \A n \in DOMAIN OpTable : \A m \in DOMAIN OpTable[n][2] : OpTable[n][2][m] \in Kinds
ASSUME OpcodeOf["Deref"] = 103 /\ OpcodeOf["Switch"] = 28 /\ OpcodeOf["StartProfiling"] = 51
=============================================================================
