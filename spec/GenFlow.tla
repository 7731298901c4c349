------------------------------ MODULE GenFlow -------------------------------
(* Programs, compiled; the decompiler's answers are judged by JudgeFlow.   *)
EXTENDS RsFlow, Json
CONSTANT Rounds
VARIABLE c
Ev == St("ev", <<>>)
Nop == St("nop", <<>>)
Brk == St("brk", <<>>)
Ret == St("ret", <<>>)
RetV == St("retv", <<>>)

\* blocks: sequences of statements; d: nesting left; l: may break
Plain == {<<>>, <<Ev>>, <<Ev, Ev>>, <<Nop>>, <<Ev, Ret>>, <<RetV>>}
Tails(l) == IF l THEN {<<>>, <<Brk>>} ELSE {<<>>}
RECURSIVE Stm(_, _), Blk(_, _), BlkS(_, _)
\* small blocks: at most one compound statement, with or without something around it
BlkS(d, l) == {<<>>, <<Ev>>, <<Ret>>} \cup (IF l THEN {<<Brk>>, <<Ev, Brk>>} ELSE {})
              \cup (IF d = 0 THEN {} ELSE UNION {{<<s>>, <<Ev, s>>, <<s, Ev>>} \cup (IF l THEN {<<s, Brk>>} ELSE {}) : s \in Stm(d, l)})
Stm(d, l) == {St("if", <<b>>) : b \in BlkS(d - 1, l)}
             \cup {St("ife", <<a, b>>) : a \in BlkS(d - 1, l), b \in BlkS(0, l)}
             \cup {St("ife", <<a, b>>) : a \in BlkS(0, l), b \in BlkS(d - 1, l)}
             \cup {St("while", <<b>>) : b \in BlkS(d - 1, TRUE)}
             \cup {St("sw", <<b>>) : b \in BlkS(d - 1, TRUE)}
             \cup {St("sw", <<a, b>>) : a \in BlkS(d - 1, TRUE), b \in {<<>>, <<Ev>>, <<Ev, Brk>>, <<Ret>>}}
             \cup {St("sw", <<a, b>>) : b \in BlkS(d - 1, TRUE), a \in {<<>>, <<Ev>>, <<Ev, Brk>>, <<Ret>>}}
             \cup {St("swd", <<a, b>>) : a \in BlkS(d - 1, TRUE), b \in {<<>>, <<Ev>>, <<Ev, Brk>>, <<Ret>>}}
             \cup {St("swd", <<a, b>>) : b \in BlkS(d - 1, TRUE), a \in {<<>>, <<Ev>>, <<Ev, Brk>>, <<Ret>>}}
             \cup {St("swd", <<a, x, b>>) : a \in BlkS(0, TRUE), x \in BlkS(0, TRUE), b \in BlkS(0, TRUE)}
             \cup {St("sw", <<a, x, b>>) : a \in BlkS(0, TRUE), x \in BlkS(0, TRUE), b \in BlkS(0, TRUE)}
Blk(d, l) == BlkS(d, l)

\* programs at random: longer blocks, deeper nests
RECURSIVE RBlk(_, _, _), RStm(_, _), RBlks(_, _, _)
RBlk(n, d, l) == IF n = 0 THEN LET x == RandomElement(1..8) IN IF l /\ x <= 4 THEN <<Brk>> ELSE IF x = 5 THEN <<Ret>> ELSE IF x = 6 THEN <<RetV>> ELSE <<>>
                 ELSE LET h == TLCEval(RStm(d, l)) t == TLCEval(RBlk(n - 1, d, l)) IN <<h>> \o t
RBlks(m, d, l) == IF m = 0 THEN <<>> ELSE LET h == TLCEval(RBlk(RandomElement(0..2), d, l)) t == TLCEval(RBlks(m - 1, d, l)) IN <<h>> \o t
RStm(d, l) == LET x == TLCEval(IF d = 0 THEN RandomElement({1, 1, 10, 11}) ELSE RandomElement(1..11)) IN
   CASE x = 1 -> Ev [] x = 2 -> Nop
     [] x \in {3, 4} -> St("if", RBlks(1, d - 1, l))
     [] x = 5 -> St("ife", RBlks(2, d - 1, l))
     [] x \in {6, 7} -> St("while", RBlks(1, d - 1, TRUE))
     [] x = 8 -> St("sw", RBlks(RandomElement(1..3), d - 1, TRUE))
     [] x = 9 -> St("swd", RBlks(RandomElement(2..4), d - 1, TRUE))
     \* what follows is never reached
     [] x = 10 -> IF RandomElement(1..4) = 1 THEN Ret ELSE Ev
     [] x = 11 -> IF l /\ RandomElement(1..4) = 1 THEN Brk ELSE Ev

Case(b) == [k |-> "flow", fn |-> DefIx("g.Main"), locals |-> <<>>, prog |-> b, code |-> Compile(b)]
ASSUME PrintT("CASE " \o ToJson([k |-> "env", pool |-> EnvPool]))
Init1 == \E b \in BlkS(1, FALSE) : Clear(b) /\ c = Case(b)
InitN == \E s \in Stm(2, FALSE) : Clear(<<s, Ev>>) /\ c = Case(<<s, Ev>>)
Init2 == \E s, t \in Stm(1, FALSE) : Clear(<<s, t>>) /\ c = Case(<<s, t>>)
InitR == \E n \in 1..Rounds : \E b \in {RBlk(RandomElement(1..3), 3, FALSE)} : Clear(b) /\ c = TLCEval(Case(b))
\* programs the decompiler is known to get wrong: where the switch ends does not show (see Clear)
InitKnown == \E b \in { <<St("swd", <<<<Ev>>, <<St("if", <<<<St("if", <<<<Ev, Brk>>>>), Ev>>>>), Ev>>>>)>>,
                         <<St("while", <<<<St("swd", <<<<Ev>>, <<>>>>)>>>>), Ev>> } : c = Case(b)
\* switches with many cases, on their own and in a loop, with and without default; cases in groups that share a body
Group == { << <<Ev, Brk>> >>, << <<>>, <<Ev, Brk>> >>, << <<>>, <<>>, <<Ev, Brk>> >>, << <<Ev>>, <<Ev, Brk>> >>, << <<St("if", <<<<Ev, Brk>>>>), Ev>> >>, << <<Ev, Ret>> >> }
GroupSeq == SetToSeq(Group)
\* m groups, each taken k further
Groups(m, at, k) == FlattenSeq([x \in 1..m |-> GroupSeq[1 + ((at + x * k) % Len(GroupSeq))]])
InitMany == \E m \in {8, 24}, at \in {0, 1, 4}, k \in {0, 1, 5}, w \in {"sw", "swd", "loop"} :
              LET g == Groups(m, at, k) IN
              c = Case(CASE w = "sw" -> <<St("sw", g), Ev>> [] w = "swd" -> <<St("swd", g \o <<<<Ev>>>>), Ev>> [] w = "loop" -> <<St("while", <<<<St("sw", g), Ev>>>>), Ev>>)
\* far from the start of the function, and over long distances
PadS == St("pad", <<>>)
InitFar == \E n \in 1..Rounds : \E b \in {RBlk(RandomElement(1..3), 2, FALSE)} : Clear(b) /\
             \E x \in {RandomElement({ <<PadS, PadS>> \o b, <<St("while", <<<<PadS>> \o b>>), PadS, Ev>>, <<PadS, PadS, Ev, St("ife", <<b, b>>), Ev>>,
                                      <<PadS, St("sw", <<<<PadS>> \o b, <<Ev, Brk>>>>), Ev>>, <<PadS, St("while", <<<<PadS, Ev>> \o b>>), Ev>>,
                                      <<PadS, St("if", <<<<PadS, Ev>> \o b>>), Ev>> })} :
                Clear(x) /\ c = TLCEval(Case(x))
Next == FALSE /\ UNCHANGED c
EmitCase == PrintT("CASE " \o ToJson(c))
=============================================================================
