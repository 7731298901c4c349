------------------------------ MODULE GenCode -------------------------------
(* Behaviours of RsCode that are replayed into the real encoder, decoder,  *)
(* label resolution and code cursor.                                       *)
EXTENDS RsCode, Json

CONSTANT MaxBlock, MaxOps

VARIABLES c, idx, hist
vars == <<c, idx, hist>>

Emit(x) == PrintT("CASE " \o ToJson(x))

\* ------------------------------------------------------------------ single instructions
Vals(op, n) ==
  LET k == KindsOf[op][n] IN
  CASE k = "i8" -> <<"-1", "0", "127", "-128">>
    [] k = "i16" -> <<"258", "0", "32767", "-32768">>
    [] k = "i32" -> <<"16909060", "0", "2147483647", "-2147483648", "-1">>
    [] k = "i64" -> <<"72623859790382856", "0", "9223372036854775807", "-9223372036854775808">>
    [] k = "u8" -> <<"7", "0", "255">>
    [] k = "u16" -> <<"258", "0", "65535", "32768">>
    [] k = "u32" -> <<"16909060", "0", "4294967295", "2147483648">>
    [] k = "u64" -> <<"72623859790382856", "0", "18446744073709551615">>
    [] k = "f32" -> <<"1.5", "0", "-0.1", "3.4028235e38">>
    [] k = "f64" -> <<"1.5", "0", "-0.1", "1e300">>
    [] k = "bool" -> <<"1", "0">>
    [] k = "idx" -> <<"16909060", "0", "4294967295", "1">>
    [] k = "idx4" -> <<"16909060", "0", "4294967295", "1">>
    [] k = "str" -> <<"abc", "~empty", "~utf8", "~big300">>
    [] k = "jump" -> <<300, 0, 3, 5, 11, -1, -3, -5, -11, -300, 32767, BiasOf(op, n) - 32768>>

DefaultArgs(op) == [n \in DOMAIN KindsOf[op] |-> Vals(op, n)[1]]

InstrsOf(op) ==
  {[op |-> op, args |-> DefaultArgs(op)]} \cup
  {[op |-> op, args |-> [DefaultArgs(op) EXCEPT ![nv[1]] = Vals(op, nv[1])[nv[2]]]] :
     nv \in {x \in (DOMAIN KindsOf[op]) \X (1..12) : x[2] <= Len(Vals(op, x[1]))}}

InstrCase(i) == [k |-> "instr", i |-> i, size |-> RuntimeSize(i), bytes |-> EncodeInstr(i)]

InitInstr == /\ \E op \in RealOps : \E i \in InstrsOf(op) : c = InstrCase(i)
             /\ idx = 0 /\ hist = <<>>

\* ------------------------------------------------------------------ label resolution
JumpOps == {o \in RealOps : \E n \in DOMAIN KindsOf[o] : KindsOf[o][n] = "jump"}
LabelTargets == { <<0, 0>>, <<12, 40>>, <<7, 7>>, <<33000, 32767>>, <<500, 0>>, <<0, 500>>, <<32767, 32768>>,
                  <<65535, 40000>> }
LabelLocs == {0, 7, 300, 32000, 40000}
Ab(x) == IF x < 0 THEN -x ELSE x
LabelCase(op, ts, loc) ==
  LET js == {n \in DOMAIN KindsOf[op] : KindsOf[op][n] = "jump"}
      first == CHOOSE n \in js : \A m \in js : n <= m
      li == [op |-> op, args |-> [n \in DOMAIN KindsOf[op] |->
                IF n \notin js THEN DefaultArgs(op)[n] ELSE IF n = first THEN 1 ELSE 2]]
  IN [k |-> "label", i |-> li, loc |-> loc, targets |-> ts,
      want |-> ResolveInstr(li, loc, ts)]
InitLabel == /\ \E op \in JumpOps, ts \in LabelTargets, loc \in LabelLocs :
                  /\ \A x \in 1..2 : Ab(ts[x] - loc) < 32700
                  /\ c = LabelCase(op, ts, loc)
             /\ idx = 0 /\ hist = <<>>
\* an instruction without a label goes through resolution unchanged
InitLabelSame == /\ \E op \in RealOps \ JumpOps : \E i \in InstrsOf(op) :
                      c = [k |-> "label", i |-> i, loc |-> 9, targets |-> <<1, 2>>, want |-> i]
                 /\ idx = 0 /\ hist = <<>>

\* ------------------------------------------------------------------ code blocks
I(op, a) == [op |-> op, args |-> a]
Rep == { I("Nop", <<>>), I("I8Const", <<"-5">>), I("I16Const", <<"-300">>), I("I32Const", <<"70000">>),
         I("I64Const", <<"-1">>), I("NameConst", <<"9">>), I("StringConst", <<"3">>), I("EnumConst", <<"3", "4">>),
         I("Jump", <<-6>>), I("Switch", <<"8", 40>>), I("SwitchLabel", <<20, 8>>),
         I("InvokeStatic", <<15, "77", "6", "1">>), I("StartProfiling", <<"func", "1">>),
         I("Breakpoint", <<"10", "3000", "4", "9", "1", "0">>), I("Construct", <<"2", "31">>), I("ParamEnd", <<>>) }

RECURSIVE Blocks(_)
Blocks(n) == IF n = 0 THEN {<<>>} ELSE {Append(b, i) : b \in Blocks(n - 1), i \in Rep}

BlockCase(code) == [k |-> "code", code |-> code, bytes |-> EncodeCode(code), locs |-> LocsOf(code),
                    size |-> CodeSize(code)]
InitBlock == /\ \E n \in 0..MaxBlock : \E b \in Blocks(n) : c = BlockCase(b)
             /\ idx = 0 /\ hist = <<>>

\* ------------------------------------------------------------------ long strings, long blocks
LongStrs == {"~big255", "~big256", "~big32767", "~big32768", "~big40000", "~big65500"}
\* known: an instruction of more than 65535 bytes counts with its size modulo 65536
InitHuge == /\ c = BlockCase(<<I("Nop", <<>>), I("StartProfiling", <<"~big70000", "1">>)>>)
            /\ idx = 0 /\ hist = <<>>
InitLongInstr == /\ \E s \in LongStrs, v \in {"0", "1"} : c = InstrCase(I("StartProfiling", <<s, v>>))
                 /\ idx = 0 /\ hist = <<>>
Sp(s) == I("StartProfiling", <<s, "1">>)
Nops(n) == [x \in 1..n |-> I("Nop", <<>>)]
\* blocks whose size is just below, at, and above what 15 and 16 bits can count, up to several times that
LongBlocks == { <<Sp(s)>> \o Nops(n) \o <<I("I8Const", <<"1">>), I("Return", <<>>)>> :
                  s \in {"~big255", "~big32767", "~big65500"}, n \in {0, 22, 23, 24, 25, 26, 27, 28} }
              \cup { <<I("I32Const", <<"7">>), Sp(a), I("NameConst", <<"3">>), Sp(b), I("Jump", <<-5>>), Sp(a), I("Nop", <<>>)>> :
                  a, b \in {"~big40000", "~big65500", "~big32768", "~big300"} }
              \cup { [x \in 1..n |-> IF x % 3 = 0 THEN I("Nop", <<>>) ELSE IF x % 3 = 1 THEN I("I64Const", <<"-9">>) ELSE I("InvokeStatic", <<9, "1", "2", "0">>)] : n \in {300, 700} }
\* only locations that exist can be asked for: 16 bits of them
InitLong == /\ \E b \in LongBlocks : c = BlockCase(b)
            /\ idx = 0 /\ hist = <<>>
InitLongLocs == /\ \E b \in LongBlocks : CodeSize(b) <= 65535 /\ c = BlockCase(b)
                /\ idx = 0 /\ hist = <<>>

\* ------------------------------------------------------------------ listings: the locals, then every instruction with its location and operands
LocalLists == { <<>>, << [name |-> "x", type |-> "Int32", const |-> FALSE] >>,
                << [name |-> "_y2", type |-> "Foo", const |-> TRUE], [name |-> "x", type |-> "Int32", const |-> FALSE], [name |-> "Zed", type |-> "Foo", const |-> FALSE] >> }
ListingCase(code, ls) == [k |-> "listing", code |-> code, locals |-> ls,
                          want |-> LET locs == TLCEval(LocsOf(code)) IN [n \in 1..Len(code) |-> [loc |-> locs[n], op |-> code[n].op, args |-> code[n].args]]]
\* each instruction on its own and behind another, with every operand value
InitListing == /\ \E op \in RealOps : \E i \in InstrsOf(op) : \E ls \in LocalLists : c = ListingCase(<<I("Nop", <<>>), i, I("Return", <<>>)>>, ls)
               /\ idx = 0 /\ hist = <<>>
InitListingLong == /\ \E b \in LongBlocks : \E ls \in LocalLists : CodeSize(b) <= 65535 /\ c = ListingCase(b, ls)
                   /\ idx = 0 /\ hist = <<>>
InitListings == /\ \E n \in 0..MaxBlock : \E b \in Blocks(n) : c = ListingCase(b, <<>>)
                /\ idx = 0 /\ hist = <<>>

\* ------------------------------------------------------------------ the code cursor, a state machine
(* A cursor is a position between instructions (idx: the next instruction) over a block.      *)
CursorBlocks == {
  <<>>, << I("Nop", <<>>) >>,
  << I("I32Const", <<"1">>), I("Jump", <<3>>), I("NameConst", <<"2">>) >>,
  << I("EnumConst", <<"3", "4">>), I("Nop", <<>>), I("InvokeStatic", <<15, "0", "6", "0">>), I("ParamEnd", <<>>) >>,
  << I("StartProfiling", <<"~big300", "1">>), I("Return", <<>>), I("Nop", <<>>) >>,
  << I("StartProfiling", <<"~big40000", "1">>), I("I8Const", <<"1">>), I("StartProfiling", <<"~big20000", "0">>), I("Nop", <<>>) >> }

InitCursor == c \in CursorBlocks /\ idx = 1 /\ hist = <<>>

Bounds == {LocOf(c, n) : n \in 1..(Len(c) + 1)}
\* locations worth probing: every boundary, and one off every boundary
Probe == {x \in UNION {{b - 1, b, b + 1} : b \in Bounds} : x >= 0 /\ x <= 65535}
\* where a relative move may aim as well: before the start, and past the last location there can be (not where such a move comes
\* around to a boundary, which 16 bits cannot tell from a short one)
Beyond == {x \in {-1, -2, -3, -300, -32767, 65535, 65536, 65537, 65600} : (x % 65536) \notin Bounds}
NoInstr == [op |-> "none", args |-> <<>>]
At(n) == IF n \in 1..Len(c) THEN c[n] ELSE NoInstr
Obs(o, a, res, i2) == Append(hist, [o |-> o, a |-> a, res |-> res, pos |-> LocOf(c, i2), peek |-> At(i2)])
Pop == IF idx <= Len(c)
       THEN idx' = idx + 1 /\ hist' = Obs("pop", 0, "ok", idx + 1)
       ELSE idx' = idx /\ hist' = Obs("pop", 0, "end", idx)
SeekAbs(l) == LET n == IndexAt(c, l) IN
       IF n # 0 THEN idx' = n /\ hist' = Obs("abs", l, "ok", n)
       ELSE idx' = idx /\ hist' = Obs("abs", l, "bad", idx)
SeekRel(l) == \* l: the absolute location aimed at
       LET n == IndexAt(c, l) off == l - LocOf(c, idx) IN
       /\ Ab(off) <= 32767
       /\ IF n # 0 THEN idx' = n /\ hist' = Obs("rel", off, "ok", n)
          ELSE idx' = idx /\ hist' = Obs("rel", off, "bad", idx)
RangeOp(a, b) == LET m == IndexAt(c, a) n == IndexAt(c, b) IN
       /\ a <= b
       /\ idx' = idx
       /\ hist' = Append(hist,
            IF m # 0 /\ n # 0
            THEN [o |-> "range", a |-> a, b |-> b, res |-> "ok", locs |-> [x \in 1..(n - m) |-> LocOf(c, m + x - 1)],
                  ops |-> [x \in 1..(n - m) |-> c[m + x - 1].op], pos |-> LocOf(c, idx), peek |-> At(idx)]
            ELSE [o |-> "range", a |-> a, b |-> b, res |-> "bad", pos |-> LocOf(c, idx), peek |-> At(idx)])

NextCursor == /\ Len(hist) < MaxOps
              /\ \/ Pop
                 \/ \E l \in Probe : SeekAbs(l)
                 \/ \E l \in Probe \cup Beyond : SeekRel(l)
                 \/ Len(hist) = MaxOps - 1 /\ \E a, b \in Probe : RangeOp(a, b)
              /\ UNCHANGED c
CursorTypeOK == idx \in 1..(Len(c) + 1)

EmitCursor == Len(hist) = MaxOps => Emit([k |-> "cursor", code |-> c, size |-> CodeSize(c), hist |-> hist])
EmitCase == Emit(c)
NextNone == FALSE /\ UNCHANGED vars
\* the block size is where the cursor ends; boundaries are strictly increasing
BlockInv == LET code == c.code locs == TLCEval(LocTable(code)) IN
   /\ \A n \in 1..Len(code) : locs[n] < locs[n + 1]
   /\ Len(code) <= 20 => \A n \in DOMAIN locs : locs[n] = LocOf(code, n)
   /\ CodeSize(code) = locs[Len(code) + 1] /\ c.size = CodeSize(code)
LabelInv == LET i == c.i w == c.want IN
   \A n \in DOMAIN i.args : KindsOf[i.op][n] = "jump" => c.loc + w.args[n] = c.targets[i.args[n]]
=============================================================================
