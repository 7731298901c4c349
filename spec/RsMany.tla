------------------------------- MODULE RsMany -------------------------------
(***************************************************************************)
(* The pool of RsPool in bulk.  Strings and definitions come in numbered   *)
(* runs: word k of a table is one fixed string, different for each k, and  *)
(* definition d carries a number of its own.  A table that has taken words *)
(* 0..n-1 in order gives word k the index base + k; the state is therefore *)
(* just how many there are, and which definitions have changed places.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

VARIABLES words,  \* table -> how many words it holds
          ndefs,  \* how many definitions there are, the placeholder not counted
          moved   \* the definitions that are not in their own place: a sequence of <<place, definition>>
mvars == <<words, ndefs, moved>>

Tabs == {"names", "tweaks", "ress", "strs"}
\* only names start with an entry, the empty one
FirstIx(t) == IF t = "names" THEN 1 ELSE 0
ManyInit == words = [t \in Tabs |-> 0] /\ ndefs = 0 /\ moved = <<>>
WordIx(t, k) == IF k < words[t] THEN FirstIx(t) + k ELSE -1
\* interning word k: known, or the next one
GrowTo(t, n) == words' = [words EXCEPT ![t] = IF n > @ THEN n ELSE @] /\ UNCHANGED <<ndefs, moved>>
AddDefs(n) == ndefs' = ndefs + n /\ UNCHANGED <<words, moved>>
At(i) == LET S == {m \in DOMAIN moved : moved[m][1] = i} IN IF S = {} THEN i ELSE moved[CHOOSE m \in S : \A o \in S : o <= m][2]
SwapDefs(i, j) == moved' = moved \o << <<i, At(j)>>, <<j, At(i)>> >> /\ UNCHANGED <<words, ndefs>>
ReloadAll == UNCHANGED mvars
=============================================================================
