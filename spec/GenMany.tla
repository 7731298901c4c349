------------------------------ MODULE GenMany -------------------------------
(* Histories of bulk operations on the constant pool, replayed into the real one. *)
EXTENDS RsMany, Json
CONSTANT MaxSteps
VARIABLE hist
gvars == <<words, ndefs, moved, hist>>
\* around what one and two bytes can count
Sizes == {3, 255, 256, 257, 65534, 65535, 65536, 65537, 70000}
Some(n) == {k \in {0, 1, 254, 255, 256, 257, 65533, 65534, 65535, 65536, 65537, 69999} : k < n}
Rec(o, a, want) == hist' = Append(hist, [o |-> o, a |-> a, want |-> want, words |-> words', ndefs |-> ndefs', moved |-> moved'])
Init == ManyInit /\ hist = <<>>
Next == \/ Len(hist) = MaxSteps /\ hist' = Append(hist, [o |-> "end"]) /\ UNCHANGED mvars
        \/ /\ Len(hist) < MaxSteps
           /\ \/ \E t \in Tabs, n \in Sizes : n > words[t] /\ GrowTo(t, n) /\ Rec("grow", <<t, n>>, FirstIx(t) + n - 1)
              \/ \E t \in Tabs : \E k \in Some(70001) : UNCHANGED mvars /\ Rec("lookup", <<t, k>>, WordIx(t, k))
              \/ \E t \in Tabs : \E k \in Some(words[t]) : UNCHANGED mvars /\ Rec("intern", <<t, k>>, WordIx(t, k))
              \/ \E n \in Sizes : ndefs + n <= 70000 /\ AddDefs(n) /\ Rec("defs", <<n>>, ndefs + n)
              \/ \E i, j \in Some(ndefs + 1) \ {0} : i < j /\ SwapDefs(i, j) /\ Rec("swap", <<i, j>>, 0)
              \/ ReloadAll /\ hist # <<>> /\ Rec("reload", <<>>, 0)
\* a definition is somewhere exactly once
Permutation == \A i, j \in {m \in Some(ndefs + 1) : m > 0} : At(i) = At(j) => i = j
NoMore == Len(hist) <= MaxSteps
\* every table beyond 65536, the definitions too, then everything once
InitAll == /\ words = [t \in Tabs |-> 70000] /\ ndefs = 69999 /\ moved = << <<1, 65537>>, <<65537, 1>> >>
           /\ hist = << [o |-> "grow", a |-> <<"names", 70000>>, want |-> 70000, words |-> [t \in Tabs |-> IF t = "names" THEN 70000 ELSE 0], ndefs |-> 0, moved |-> <<>>],
                        [o |-> "all", a |-> <<70000>>, want |-> 0, words |-> words, ndefs |-> 0, moved |-> <<>>],
                        [o |-> "defs", a |-> <<69999>>, want |-> 69999, words |-> words, ndefs |-> 69999, moved |-> <<>>],
                        [o |-> "swap", a |-> <<1, 65537>>, want |-> 0, words |-> words, ndefs |-> 69999, moved |-> moved],
                        [o |-> "reload", a |-> <<>>, want |-> 0, words |-> words, ndefs |-> 69999, moved |-> moved] >>
NextNone == FALSE /\ UNCHANGED gvars
EmitAll == PrintT("CASE " \o ToJson([k |-> "many", hist |-> hist]))
EmitHist == Len(hist) = MaxSteps + 1 => EmitAll
=============================================================================
