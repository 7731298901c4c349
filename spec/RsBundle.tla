------------------------------ MODULE RsBundle ------------------------------
(***************************************************************************)
(* A script bundle (.redscripts file): the constant pool - four string tables  *)
(* and a table of definitions - and its exact layout on disk.              *)
(*                                                                         *)
(* A pool is [names, tweaks, ress, strs, defs]: sequences; index 0 of the  *)
(* real tables is element 1 here.  EncodeBundle gives the file as a        *)
(* sequence of typed tokens; CRC-32 is left uninterpreted: Tok("crc",      *)
(* <<a,b>>) is "the CRC of bytes a..b-1 of the file".                      *)
(***************************************************************************)
EXTENDS RsCode

\* ---------------------------------------------------------------- flags: bit positions
ClassFlagBits == [is_native |-> 0, is_abstract |-> 1, is_final |-> 2, is_struct |-> 3,
                  has_functions |-> 4, has_fields |-> 5, is_import_only |-> 6, is_test_only |-> 7,
                  has_overrides |-> 8]
FieldFlagBits == [is_native |-> 0, is_editable |-> 1, is_inline |-> 2, is_const |-> 3, is_replicated |-> 4,
                  has_hint |-> 5, is_instance_editable |-> 6, has_default |-> 7, is_persistent |-> 8,
                  is_test_only |-> 9, is_browsable |-> 10]
LocalFlagBits == [is_const |-> 0]
ParamFlagBits == [is_optional |-> 0, is_out |-> 1, is_short_circuit |-> 2, is_const |-> 3]
FunFlagBits == [is_static |-> 0, is_exec |-> 1, is_timer |-> 2, is_final |-> 3, is_native |-> 4, unk1 |-> 5,
                is_callback |-> 6, is_operator |-> 7, has_return_value |-> 8, has_base_method |-> 9,
                has_parameters |-> 10, has_locals |-> 11, has_body |-> 12, is_cast |-> 13,
                is_implicit_cast |-> 14, is_thread_safe |-> 18, is_const |-> 19, unk2 |-> 20, unk3 |-> 21,
                is_quest |-> 22, unk4 |-> 23, unk5 |-> 24, unk6 |-> 25]

RECURSIVE FlagSum(_, _)
FlagSum(bits, S) == IF S = {} THEN 0 ELSE LET f == CHOOSE f \in S : TRUE IN 2^(bits[f]) + FlagSum(bits, S \ {f})

If(b, x) == IF b THEN {x} ELSE {}
\* the flags a definition carries on disk: those set by hand plus those that say which parts follow
ClassFlags(d) == (d.flags \ {"has_functions", "has_fields", "has_overrides"})
                 \cup If(d.functions # <<>>, "has_functions") \cup If(d.fields # <<>>, "has_fields")
                 \cup If(d.overrides # <<>>, "has_overrides")
FieldFlags(d) == (d.flags \ {"has_hint"}) \cup If(d.hint # <<>>, "has_hint")
FunDerived == {"has_return_value", "has_base_method", "has_parameters", "has_locals", "is_operator", "has_body"}
FunFlags(d) == (d.flags \ FunDerived)
               \cup If(d.ret # <<>>, "has_return_value") \cup If(d.base # <<>>, "has_base_method")
               \cup If(d.params # <<>> \/ d.unk2 # <<>>, "has_parameters") \cup If(d.locals # <<>>, "has_locals")
               \cup If(d.operator # <<>>, "is_operator") \cup If(d.code # <<>>, "has_body")

\* ---------------------------------------------------------------- definition bodies
VisNum == [Public |-> 0, Protected |-> 1, Private |-> 2]
KindNum == [Type |-> 0, Class |-> 1, EnumValue |-> 2, Enum |-> 3, Function |-> 5, Parameter |-> 6,
            Local |-> 7, Field |-> 8, SourceFile |-> 9]
TypeNum == [Prim |-> 0, Class |-> 1, Ref |-> 2, WeakRef |-> 3, Array |-> 4, StaticArray |-> 5, ScriptRef |-> 6]

U8(v) == << Tok("u8", v) >>
U16(v) == << Tok("u16", v) >>
U32(v) == << Tok("u32", v) >>
U64(v) == << Tok("u64", v) >>
Bool(b) == U8(IF b THEN 1 ELSE 0)
Str16(s) == U16(ByteLen(s)) \o << Tok("bytes", s) >>
Idxs(s) == U32(Len(s)) \o FlattenSeq([n \in 1..Len(s) |-> U32(s[n])])
Opt(s) == IF s = <<>> THEN <<>> ELSE U32(s[1])
Props(s) == U32(Len(s)) \o FlattenSeq([n \in 1..Len(s) |-> Str16(s[n][1]) \o Str16(s[n][2])])

\* everything of a function before its code
FunHead(d) ==
  LET fl == FunFlags(d) IN
  U8(VisNum[d.vis]) \o U32(FlagSum(FunFlagBits, fl))
  \o (IF "is_native" \in fl THEN <<>> ELSE U32(d.source[1]) \o U32(d.source[2]))
  \o (IF d.ret # <<>> THEN U32(d.ret[1]) \o Bool(d.unk1) ELSE <<>>)
  \o Opt(d.base)
  \o (IF "has_parameters" \in fl THEN Idxs(d.params) ELSE <<>>)
  \o (IF d.locals # <<>> THEN Idxs(d.locals) ELSE <<>>)
  \o Opt(d.operator)
  \o (IF "is_cast" \in fl THEN U8(d.cast) ELSE <<>>)

Body(d) ==
  CASE d.kind = "Type" ->
         U8(TypeNum[d.type]) \o (IF d.type \in {"Prim", "Class"} THEN <<>> ELSE U32(d.inner))
                             \o (IF d.type = "StaticArray" THEN U32(d.size) ELSE <<>>)
    [] d.kind = "Class" ->
         U8(VisNum[d.vis]) \o U16(FlagSum(ClassFlagBits, ClassFlags(d))) \o U32(d.base)
         \o (IF d.functions # <<>> THEN Idxs(d.functions) ELSE <<>>)
         \o (IF d.fields # <<>> THEN Idxs(d.fields) ELSE <<>>)
         \o (IF d.overrides # <<>> THEN Idxs(d.overrides) ELSE <<>>)
    [] d.kind = "EnumValue" -> << Tok("i64", d.value) >>
    [] d.kind = "Enum" -> U8(d.flags) \o U8(d.size) \o Idxs(d.members) \o Bool(d.unk1)
    [] d.kind = "Function" ->
         FunHead(d) \o (IF d.code # <<>> THEN EncodeCode(d.code) ELSE <<>>)
         \o (IF "unk4" \in FunFlags(d) THEN Idxs(d.unk2) ELSE <<>>)
    [] d.kind = "Parameter" -> U32(d.type) \o U8(FlagSum(ParamFlagBits, d.flags))
    [] d.kind = "Local" -> U32(d.type) \o U8(FlagSum(LocalFlagBits, d.flags))
    [] d.kind = "Field" ->
         U8(VisNum[d.vis]) \o U32(d.type) \o U16(FlagSum(FieldFlagBits, FieldFlags(d)))
         \o (IF d.hint # <<>> THEN Str16(d.hint[1]) ELSE <<>>)
         \o Props(d.attrs) \o Props(d.defaults)
    \* paths are written with backslashes: d.path is a sequence of components
    [] d.kind = "SourceFile" ->
         LET p == d.path
             RECURSIVE Chars(_)
             Chars(n) == IF n = 0 THEN 0 ELSE Chars(n - 1) + ByteLen(p[n])
         IN U32(d.id) \o U64(d.hash) \o U16(Chars(Len(p)) + Len(p) - 1)
            \o FlattenSeq([n \in 1..Len(p) |-> (IF n = 1 THEN <<>> ELSE << Tok("u8", 92) >>) \o << Tok("bytes", p[n]) >>])

TokSize(t) == CASE t.t \in {"u8","i8"} -> 1 [] t.t \in {"u16","i16"} -> 2
                [] t.t \in {"u32","i32","f32","crc","selfcrc"} -> 4 [] t.t \in {"u64","i64","f64"} -> 8
                [] t.t = "bytes" -> ByteLen(t.v)
Size(ts) == FoldLeft(LAMBDA n, t : n + TokSize(t), 0, ts)

\* ---------------------------------------------------------------- the file
\* every string once, in the order of its first occurrence
AllStrings(p) == FoldLeft(LAMBDA acc, s : IF s \in acc.seen THEN acc ELSE [list |-> Append(acc.list, s), seen |-> acc.seen \cup {s}],
                          [list |-> <<>>, seen |-> {}], p.names \o p.tweaks \o p.ress \o p.strs).list
\* where each string starts, and where the last one ends; each is followed by a zero byte
StrOffs(u) == FoldLeft(LAMBDA acc, s : Append(acc, acc[Len(acc)] + ByteLen(s) + 1), <<0>>, u)
Offsets(u, tab) == LET at == TLCEval(StrOffs(u)) IN FlattenSeq([n \in 1..Len(tab) |-> U32(at[CHOOSE m \in DOMAIN u : u[m] = tab[n]])])

HeaderSize == 104
DefHeaderSize == 20

Hdr(h, p) ==
  LET u == TLCEval(AllStrings(p))
      n1 == TLCEval(StrOffs(u))[Len(u) + 1]
      a0 == HeaderSize
      a1 == a0 + n1
      a2 == a1 + 4 * Len(p.names)
      a3 == a2 + 4 * Len(p.tweaks)
      a4 == a3 + 4 * Len(p.ress)
      a5 == a4 + DefHeaderSize * Len(p.defs)
      a6 == a5 + 4 * Len(p.strs)
      Tab(off, count, end) == U32(off) \o U32(count) \o << Tok("crc", <<off, end>>) >>
  IN << Tok("bytes", "REDS") >> \o U32(h.version) \o U32(h.flags) \o U64(h.timestamp) \o U32(h.unk3)
     \o << Tok("selfcrc", 0) >> \o U32(h.chunks)
     \o Tab(a0, n1, a1) \o Tab(a1, Len(p.names), a2) \o Tab(a2, Len(p.tweaks), a3) \o Tab(a3, Len(p.ress), a4)
     \o Tab(a4, Len(p.defs), a5) \o Tab(a5, Len(p.strs), a6)

BodiesAt(p) == LET u == TLCEval(AllStrings(p)) IN HeaderSize + TLCEval(StrOffs(u))[Len(u) + 1]
             + 4 * (Len(p.names) + Len(p.tweaks) + Len(p.ress) + Len(p.strs)) + DefHeaderSize * Len(p.defs)

\* definition 0 is a placeholder: its header is all zeroes and it has no body
BodyOf(p, n) == IF n = 1 THEN <<>> ELSE Body(p.defs[n])
\* where each body starts, and where the last one ends
BodyOffs(p) == LET at == TLCEval(BodiesAt(p)) IN
  FoldLeft(LAMBDA acc, n : Append(acc, acc[n] + Size(BodyOf(p, n))), <<at>>, [n \in 1..Len(p.defs) |-> n])
BodyOff(p, n) == BodyOffs(p)[n]
DefHeader(p, n, at) ==
  IF n = 1 THEN U32(0) \o U32(0) \o U32(0) \o U32(0) \o U32(0)
  ELSE LET d == p.defs[n] IN
       U32(d.name) \o U32(d.parent) \o U32(at[n]) \o U32(at[n + 1] - at[n]) \o U8(KindNum[d.kind])
       \o U8(d.u1) \o U8(d.u2) \o U8(d.u3)

EncodeBundle(h, p) ==
  LET u == TLCEval(AllStrings(p)) at == TLCEval(BodyOffs(p)) IN
  Hdr(h, p)
  \o FlattenSeq([n \in 1..Len(u) |-> << Tok("bytes", u[n]), Tok("u8", 0) >>])
  \o Offsets(u, p.names) \o Offsets(u, p.tweaks) \o Offsets(u, p.ress)
  \o FlattenSeq([n \in 1..Len(p.defs) |-> DefHeader(p, n, at)])
  \o Offsets(u, p.strs)
  \o FlattenSeq([n \in 1..Len(p.defs) |-> BodyOf(p, n)])

\* ---------------------------------------------------------------- files that must be refused
\* single bytes that make the file meaningless: <<offset, value>>.  Loading such a file is an error.
BadTags(p) ==
  LET offs == TLCEval(BodyOffs(p))
      DH(n) == BodiesAt(p) - 4 * Len(p.strs) - DefHeaderSize * (Len(p.defs) - n + 1) + 16
      Real == 2..Len(p.defs)
  IN { <<n, 0>> : n \in 0..3 }
     \cup UNION { { <<DH(n), v>> : v \in {4, 10, 255} } : n \in Real }
     \cup UNION { { <<offs[n], v>> : v \in {3, 255} } : n \in {m \in Real : p.defs[m].kind \in {"Class", "Function", "Field"}} }
     \cup UNION { { <<offs[n], v>> : v \in {7, 255} } : n \in {m \in Real : p.defs[m].kind = "Type"} }
     \cup UNION { { <<offs[n] + Size(FunHead(p.defs[n])) + 4, v>> : v \in {104, 255} } :
                     n \in {m \in Real : p.defs[m].kind = "Function" /\ p.defs[m].code # <<>>} }

\* ---------------------------------------------------------------- what a loaded definition looks like
Loaded(d) == CASE d.kind = "Class" -> [d EXCEPT !.flags = ClassFlags(d)]
               [] d.kind = "Field" -> [d EXCEPT !.flags = FieldFlags(d)]
               [] d.kind = "Function" -> [d EXCEPT !.flags = FunFlags(d)]
               [] OTHER -> d

\* ---------------------------------------------------------------- the layout is a partition of the file
TokOffsets(ts) == LET RECURSIVE G(_, _)
                      G(s, o) == IF s = <<>> THEN <<>> ELSE << o >> \o G(Tail(s), o + TokSize(Head(s)))
                  IN G(ts, 0)
LayoutOK(h, p) ==
  /\ Size(Hdr(h, p)) = HeaderSize
  /\ Size(EncodeBundle(h, p)) = BodyOff(p, Len(p.defs) + 1)
  /\ LET at == TLCEval(BodyOffs(p)) IN \A n \in 1..Len(p.defs) : Size(DefHeader(p, n, at)) = DefHeaderSize
=============================================================================
