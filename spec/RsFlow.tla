------------------------------- MODULE RsFlow -------------------------------
(***************************************************************************)
(* Control flow.  A program is a block (sequence) of statements            *)
(*   [p, n, b]: what it is, the number that identifies its expressions,    *)
(*   its blocks                                                            *)
(*   ev (evaluate expression n), nop, pad, if, ife, while, sw, swd, brk, ret,   *)
(*   retv                                                                  *)
(* Compile lays it out as the compiler does.  Two machines then run:       *)
(*   - the virtual machine, over the bytecode;                             *)
(*   - the source machine, over the statements the decompiler returned.    *)
(* Every evaluation of an expression is visible, and so is the outcome of  *)
(* every condition, which is arbitrary.  The decompiled statements mean    *)
(* the same as the bytecode exactly when the machines see the same in      *)
(* every run.                                                              *)
(***************************************************************************)
EXTENDS RsLang

St(p, b) == [p |-> p, n |-> 0, b |-> b]

\* ---------------------------------------------------------------- numbering the expressions of a program
Cases(s) == IF s.p = "sw" THEN Len(s.b) ELSE IF s.p = "swd" THEN Len(s.b) - 1 ELSE 0
RECURSIVE NumStmt(_, _), NumBlock(_, _), NumBlocks(_, _)
NumBlock(b, n) == IF b = <<>> THEN <<<<>>, n>>
  ELSE LET h == TLCEval(NumStmt(Head(b), n)) t == TLCEval(NumBlock(Tail(b), h[2])) IN <<<<h[1]>> \o t[1], t[2]>>
NumBlocks(bs, n) == IF bs = <<>> THEN <<<<>>, n>>
  ELSE LET h == TLCEval(NumBlock(Head(bs), n)) t == TLCEval(NumBlocks(Tail(bs), h[2])) IN <<<<h[1]>> \o t[1], t[2]>>
NumStmt(s, n) == LET r == TLCEval(NumBlocks(s.b, n + 1 + Cases(s))) IN <<[s EXCEPT !.n = n, !.b = r[1]], r[2]>>
Number(b) == NumBlock(b, 1)[1]

\* ---------------------------------------------------------------- expression number n
Small(n) == Tr(I("I16Const", <<NumText[n]>>), <<>>)
ExprNo(n) == CASE n % 3 = 0 -> [i |-> I("InvokeStatic", <<0, "1", DefIx("g.Plain"), "0">>), kids |-> <<Small(n)>>, sc |-> {}, pad |-> 1]
               [] n % 3 = 1 -> Tr(I("I32Const", <<NumText[n]>>), <<>>)
               [] OTHER -> Small(n)
Ex == [n \in 1..400 |-> Flat(ExprNo(n))]
ExSize == [n \in 1..400 |-> CodeSize(Ex[n])]
Noise == << I("Nop", <<>>), I("Breakpoint", <<"1", "2", "3", "4", "1", "0">>), I("StartProfiling", <<"f", "1">>) >>

\* takes up room, so that jumps are long and locations high
Pad == I("StartProfiling", <<"~big20000", "1">>)
PadSize == 6 + 20000

\* ---------------------------------------------------------------- layout
RECURSIVE SizeOf(_), BlockSize(_)
BlockSize(b) == IF b = <<>> THEN 0 ELSE SizeOf(Head(b)) + BlockSize(Tail(b))
CaseSize(s, m) == 5 + ExSize[s.n + m] + BlockSize(s.b[m])
RECURSIVE CasesSize(_, _)
CasesSize(s, m) == IF m = 0 THEN 0 ELSE CasesSize(s, m - 1) + CaseSize(s, m)
SizeOf(s) ==
  CASE s.p = "ev" -> ExSize[s.n]
    [] s.p = "nop" -> RuntimeSize(Noise[1 + (s.n % 3)])
    [] s.p = "pad" -> PadSize
    [] s.p = "if" -> 3 + ExSize[s.n] + BlockSize(s.b[1])
    [] s.p = "ife" -> 6 + ExSize[s.n] + BlockSize(s.b[1]) + BlockSize(s.b[2])
    [] s.p = "while" -> 6 + ExSize[s.n] + BlockSize(s.b[1])
    [] s.p = "sw" -> 11 + ExSize[s.n] + CasesSize(s, Cases(s))
    [] s.p = "swd" -> 11 + ExSize[s.n] + CasesSize(s, Cases(s)) + 1 + BlockSize(s.b[Len(s.b)])
    [] s.p = "brk" -> 3
    [] s.p = "ret" -> 2
    [] s.p = "retv" -> 1 + ExSize[s.n]

RECURSIVE Comp(_, _, _), CompBlock(_, _, _), CompCases(_, _, _, _)
CompBlock(b, at, exit) == IF b = <<>> THEN <<>> ELSE Comp(Head(b), at, exit) \o CompBlock(Tail(b), at + SizeOf(Head(b)), exit)
\* the cases of s from m on; at: where the label of case m goes
NextFull(s, m) == LET S == {x \in m..Cases(s) : s.b[x] # <<>>} IN IF S = {} THEN Cases(s) + 1 ELSE CHOOSE x \in S : \A y \in S : x <= y
CompCases(s, m, at, exit) ==
  IF m > Cases(s) THEN <<>>
  ELSE LET f == NextFull(s, m)
           \* the label of case x, counted from here
           LabelAt(x) == at + CasesSize(s, x - 1) - CasesSize(s, m - 1)
           body == IF f > Cases(s) THEN LabelAt(f) ELSE LabelAt(f) + 5 + ExSize[s.n + f]
       IN << I("SwitchLabel", <<CaseSize(s, m), body - at>>) >> \o Ex[s.n + m] \o CompBlock(s.b[m], at + 5 + ExSize[s.n + m], exit)
          \o CompCases(s, m + 1, at + CaseSize(s, m), exit)
Comp(s, at, exit) ==
  LET sz == SizeOf(s)
      c == IF s.p \in {"nop", "brk", "ret", "pad"} THEN 0 ELSE ExSize[s.n]
  IN CASE s.p = "ev" -> Ex[s.n]
       [] s.p = "nop" -> << Noise[1 + (s.n % 3)] >>
       [] s.p = "pad" -> << Pad >>
       [] s.p = "if" -> << I("JumpIfFalse", <<sz>>) >> \o Ex[s.n] \o CompBlock(s.b[1], at + 3 + c, exit)
       [] s.p = "ife" -> LET t == BlockSize(s.b[1]) IN
            << I("JumpIfFalse", <<6 + c + t>>) >> \o Ex[s.n] \o CompBlock(s.b[1], at + 3 + c, exit)
            \o << I("Jump", <<3 + BlockSize(s.b[2])>>) >> \o CompBlock(s.b[2], at + 6 + c + t, exit)
       [] s.p = "while" -> << I("JumpIfFalse", <<sz>>) >> \o Ex[s.n] \o CompBlock(s.b[1], at + 3 + c, at + sz)
            \o << I("Jump", <<-(sz - 3)>>) >>
       [] s.p \in {"sw", "swd"} ->
            << I("Switch", <<DefIx("t.Int32"), 11 + c>>) >> \o Ex[s.n] \o CompCases(s, 1, at + 11 + c, at + sz)
            \o (IF s.p = "sw" THEN <<>> ELSE << I("SwitchDefault", <<>>) >>
                 \o CompBlock(s.b[Len(s.b)], at + 11 + c + CasesSize(s, Cases(s)) + 1, at + sz))
       [] s.p = "brk" -> << I("Jump", <<exit - at>>) >>
       [] s.p = "ret" -> << I("Return", <<>>), I("Nop", <<>>) >>
       [] s.p = "retv" -> << I("Return", <<>>) >> \o Ex[s.n]
\* the compiler ends every body with a Nop
Compile(b) == CompBlock(Number(b), 0, -1) \o << I("Nop", <<>>) >>

\* ---------------------------------------------------------------- bytecode with one reading
(* The end of a switch shows in bytecode only through the breaks that jump there, or, without a default, through the end of its    *)
(* cases.  Clear(b): every switch of b can be told apart from what surrounds it.                                                  *)
RECURSIVE EndsInSwitch(_), Breaks(_), ClearStmt(_)
Last1(b) == b[Len(b)]
EndsInSwitch(b) == b # <<>> /\ (Last1(b).p \in {"sw", "swd"} \/ (Last1(b).p \in {"if", "ife"} /\ \E n \in DOMAIN Last1(b).b : EndsInSwitch(Last1(b).b[n])))
\* a break out of the construct b is the body of
Breaks(b) == \E n \in DOMAIN b : b[n].p = "brk" \/ (b[n].p \in {"if", "ife"} /\ \E m \in DOMAIN b[n].b : Breaks(b[n].b[m]))
EndShows(s) == s.p = "sw" \/ \E n \in 1..Cases(s) : Breaks(s.b[n])
ClearBlock(b) == \A n \in DOMAIN b :
   /\ ClearStmt(b[n])
   /\ b[n].p = "swd" /\ ~EndShows(b[n]) => LET d == Last1(b[n].b) IN
        /\ ~Breaks(IF d # <<>> /\ Last1(d).p = "brk" THEN SubSeq(d, 1, Len(d) - 1) ELSE d)
        /\ d # <<>> \/ (n < Len(b) /\ ~Breaks(<<b[n + 1]>>))
ClearStmt(s) == /\ \A n \in DOMAIN s.b : ClearBlock(s.b[n])
                /\ s.p = "sw" => \A n \in 1..(Cases(s) - 1) : ~EndsInSwitch(s.b[n])
                /\ s.p = "swd" => \A n \in 1..Cases(s) : ~EndsInSwitch(s.b[n])
Clear(b) == ClearBlock(b)

\* ---------------------------------------------------------------- the virtual machine
(* A configuration [m, pc]: m is "run", or "match" while a switch looks for its case.                *)
(* Seen(code, cfg): what is visible there: <<kind, expression>>; Go(code, cfg, yes): what follows.    *)
Silent(i) == i.op \in {"Nop", "Breakpoint", "StartProfiling", "SwitchDefault", "Jump"}
\* a program ready to run: its code, and where each instruction starts (and the end)
RECURSIVE LocTab(_, _, _)
LocTab(code, n, acc) == IF n > Len(code) THEN acc ELSE LocTab(code, n + 1, Append(acc, acc[n] + RuntimeSize(code[n])))
Prog(code) == [code |-> code, locs |-> LocTab(code, 1, <<0>>)]
TargetIx(p, n, off) == CHOOSE m \in DOMAIN p.locs : p.locs[m] = p.locs[n] + off
RECURSIVE Settle(_, _, _)
\* skips what is not visible
Settle(p, m, n) ==
  IF n > Len(p.code) THEN [m |-> "run", pc |-> n]
  ELSE LET i == p.code[n] IN
    CASE m = "match" /\ i.op = "SwitchLabel" -> [m |-> "match", pc |-> n]
      [] m = "match" -> Settle(p, "run", n)
      [] i.op = "Jump" -> Settle(p, "run", TargetIx(p, n, i.args[1]))
      \* running into the label of the next case: its body follows
      [] i.op = "SwitchLabel" -> Settle(p, "run", TargetIx(p, n, i.args[2]))
      [] Silent(i) -> Settle(p, "run", n + 1)
      [] OTHER -> [m |-> "run", pc |-> n]
Tree1(fn, p, n) == AstOf(fn, TreeAt(p.code, n)[1], <<>>)
After(p, n) == TreeAt(p.code, n)[2]
VSeen(fn, p, g) ==
  IF g.pc > Len(p.code) THEN <<"end", Leaf("End")>>
  ELSE LET i == p.code[g.pc] IN
    CASE i.op = "JumpIfFalse" -> <<"test", Tree1(fn, p, g.pc + 1)>>
      [] i.op = "Switch" -> <<"subject", Tree1(fn, p, g.pc + 1)>>
      [] i.op = "SwitchLabel" -> <<"match", Tree1(fn, p, g.pc + 1)>>
      [] i.op = "Return" -> IF p.code[g.pc + 1].op = "Nop" THEN <<"return", Leaf("None")>> ELSE <<"return", Tree1(fn, p, g.pc + 1)>>
      [] OTHER -> <<"eval", Tree1(fn, p, g.pc)>>
VGo(p, g, yes) ==
  LET i == p.code[g.pc] IN
    CASE i.op = "JumpIfFalse" -> IF yes THEN Settle(p, "run", After(p, g.pc + 1)) ELSE Settle(p, "run", TargetIx(p, g.pc, i.args[1]))
      [] i.op = "Switch" -> Settle(p, "match", TargetIx(p, g.pc, i.args[2]))
      [] i.op = "SwitchLabel" -> IF yes THEN Settle(p, "run", TargetIx(p, g.pc, i.args[2])) ELSE Settle(p, "match", TargetIx(p, g.pc, i.args[1]))
      [] OTHER -> Settle(p, "run", After(p, g.pc))

\* ---------------------------------------------------------------- the source machine
(* A configuration is the sequence of statements still to run, with marks where a loop or a switch ends. *)
LoopEnd(w) == Nd("LoopEnd", <<>>, <<w>>)
SwitchEnd == Leaf("SwitchEnd")
RECURSIVE Unwind(_), Calm(_)
Unwind(k) == IF k = <<>> THEN <<Leaf("Stray")>> ELSE IF Head(k).t \in {"LoopEnd", "SwitchEnd"} THEN Tail(k) ELSE Unwind(Tail(k))
\* skips what is not visible
Calm(k) ==
  IF k = <<>> THEN k
  ELSE LET h == Head(k) t == Tail(k) IN
    CASE h.t = "Seq" -> Calm(h.k \o t)
      [] h.t = "LoopEnd" -> Calm(h.k \o t)
      [] h.t = "SwitchEnd" -> Calm(t)
      [] h.t = "Break" -> Calm(Unwind(t))
      \* a switch without cases left to try
      [] h.t = "Trying" /\ h.k = <<>> -> Calm(t)
      [] h.t = "Trying" /\ h.k[1].t = "Default" -> Calm(h.k[1].k \o <<SwitchEnd>> \o t)
      [] h.t = "Declare" /\ h.k = <<>> -> Calm(t)
      [] OTHER -> k
Bodies(cs) == FlattenSeq([n \in DOMAIN cs |-> IF cs[n].t = "Case" THEN cs[n].k[2].k ELSE cs[n].k[1].k])
SSeen(k) ==
  IF k = <<>> THEN <<"end", Leaf("End")>>
  ELSE LET h == Head(k) IN
    CASE h.t \in {"If", "While"} -> <<"test", h.k[1]>>
      [] h.t = "Switch" -> <<"subject", h.k[1]>>
      [] h.t = "Trying" -> <<"match", h.k[1].k[1]>>
      [] h.t = "Return" -> IF h.k = <<>> THEN <<"return", Leaf("None")>> ELSE <<"return", h.k[1]>>
      [] OTHER -> <<"eval", h>>
SGo(k, yes) ==
  LET h == Head(k) t == Tail(k) IN
    CASE h.t = "If" -> Calm((IF yes THEN <<h.k[2]>> ELSE SubSeq(h.k, 3, Len(h.k))) \o t)
      [] h.t = "While" -> Calm(IF yes THEN <<h.k[2], LoopEnd(h)>> \o t ELSE t)
      [] h.t = "Switch" -> Calm(<<Nd("Trying", <<>>, Tail(h.k))>> \o t)
      [] h.t = "Trying" -> Calm(IF yes THEN Bodies(h.k) \o <<SwitchEnd>> \o t ELSE <<Nd("Trying", <<>>, Tail(h.k))>> \o t)
      [] OTHER -> Calm(t)
Forks(seen) == seen[1] \in {"test", "match"}
Final(seen) == seen[1] \in {"end", "return"}
=============================================================================
