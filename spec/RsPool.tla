------------------------------- MODULE RsPool -------------------------------
(***************************************************************************)
(* The constant pool as the compiler, the decompiler and the CLI use it: a *)
(* state machine over four interning tables and one table of definitions.  *)
(*                                                                         *)
(*   - a pool starts empty, or as what a file holds; a file may list the   *)
(*     same string more than once;                                         *)
(*   - interning a string gives an index that resolves to that string for  *)
(*     as long as the pool lives; interning it again gives the same index; *)
(*   - index 0 of the name table always reads "None", and "None" always    *)
(*     interns to 0;                                                       *)
(*   - definition indices are positions: adding appends, putting replaces  *)
(*     one, swapping exchanges two, renaming changes one name - and nothing *)
(*     else in the pool moves;                                             *)
(*   - saving and loading is invisible.                                    *)
(***************************************************************************)
EXTENDS RsBundle

VARIABLES tab,   \* [names, tweaks, ress, strs -> sequence of strings]
          defs,  \* sequence of definitions; position 1 is the placeholder (index 0)
          res    \* what the last operation returned
pvars == <<tab, defs, res>>

Tables == {"names", "tweaks", "ress", "strs"}
Text(t, i) == IF t = "names" /\ i = 0 THEN "None"
              ELSE IF i + 1 \in DOMAIN tab[t] THEN tab[t][i + 1] ELSE "!missing"
Find(t, s) == LET S == {n \in DOMAIN tab[t] : tab[t][n] = s}
              IN IF S = {} THEN -1 ELSE (CHOOSE n \in S : TRUE) - 1

D0 == [kind |-> "Type", name |-> 0, parent |-> 0, u1 |-> 0, u2 |-> 0, u3 |-> 0, type |-> "Prim", inner |-> 0, size |-> 0]
BaseD(k, name, parent) == [kind |-> k, name |-> name, parent |-> parent, u1 |-> 0, u2 |-> 0, u3 |-> 0]
\* a definition of each kind that carries a recognisable tag
Mk(k, name, parent, tag) ==
  BaseD(k, name, parent) @@
  CASE k = "Type" -> [type |-> "StaticArray", inner |-> tag, size |-> 3]
    [] k = "Class" -> [vis |-> "Private", flags |-> {}, base |-> tag, functions |-> <<>>, fields |-> <<>>, overrides |-> <<>>]
    [] k = "EnumValue" -> [value |-> tag]
    [] k = "Enum" -> [flags |-> 0, size |-> tag, members |-> <<>>, unk1 |-> FALSE]
    [] k = "Function" -> [vis |-> "Public", flags |-> {"is_static"}, source |-> <<1, tag>>, ret |-> <<>>, unk1 |-> FALSE,
                          base |-> <<>>, params |-> <<>>, locals |-> <<>>, operator |-> <<>>, cast |-> 0, code |-> <<>>, unk2 |-> <<>>]
    [] k = "Parameter" -> [type |-> tag, flags |-> {"is_out"}]
    [] k = "Local" -> [type |-> tag, flags |-> {}]
    [] k = "Field" -> [vis |-> "Protected", type |-> tag, flags |-> {"is_const"}, hint |-> <<>>, attrs |-> <<>>, defaults |-> <<>>]
    [] k = "SourceFile" -> [id |-> tag, hash |-> "77", path |-> <<"dir", "f.reds">>]

Tab0 == [names |-> <<"~empty", "A">>, tweaks |-> <<>>, ress |-> <<"R">>, strs |-> <<"A", "~utf8">>]
\* as loaded from a file that lists strings twice
TabDup == [names |-> <<"~empty", "A", "A">>, tweaks |-> <<"B", "~utf8", "B", "B">>, ress |-> <<"R", "R">>, strs |-> <<"C", "A", "C">>]
PoolInit == /\ tab \in {Tab0, TabDup}
            /\ defs = << D0, Mk("SourceFile", 0, 0, 1), Mk("Class", 1, 0, 0), Mk("Function", 1, 2, 5) >>
            /\ res = "init"

Intern(t, s) ==
  LET i == Find(t, s) IN
  /\ UNCHANGED defs
  /\ IF t = "names" /\ s = "None" THEN res' = 0 /\ UNCHANGED tab
     ELSE IF i >= 0 THEN res' = i /\ UNCHANGED tab
     ELSE res' = Len(tab[t]) /\ tab' = [tab EXCEPT ![t] = Append(@, s)]
Lookup(t, s) == res' = Find(t, s) /\ UNCHANGED <<tab, defs>>
Read(t, i) == res' = Text(t, i) /\ UNCHANGED <<tab, defs>>
AddDef(d) == res' = Len(defs) /\ defs' = Append(defs, d) /\ UNCHANGED tab
Reserve == AddDef(D0)
Stub(n) == AddDef([D0 EXCEPT !.name = n])
Put(i, d) == res' = "ok" /\ defs' = [defs EXCEPT ![i + 1] = d] /\ UNCHANGED tab
Swap(i, j) == res' = "ok" /\ UNCHANGED tab
              /\ defs' = [defs EXCEPT ![i + 1] = defs[j + 1], ![j + 1] = defs[i + 1]]
Rename(i, n) == res' = "ok" /\ defs' = [defs EXCEPT ![i + 1].name = n] /\ UNCHANGED tab
\* in-place mutation through the typed accessors; refused when the definition is of another kind
Mutate(i, k, tag) ==
  LET d == defs[i + 1] IN
  /\ UNCHANGED tab
  /\ IF i < Len(defs) /\ d.kind = k
     THEN res' = "ok" /\ defs' = [defs EXCEPT ![i + 1] =
            CASE k = "Class" -> [d EXCEPT !.base = tag] [] k = "Field" -> [d EXCEPT !.type = tag]
              [] k = "Function" -> [d EXCEPT !.source = <<1, tag>>]]
     ELSE res' = "refused" /\ UNCHANGED defs
Reload == res' = "ok" /\ UNCHANGED <<tab, defs>>

Roots == SelectSeq([n \in 1..(Len(defs) - 1) |-> n], LAMBDA n : defs[n + 1].parent = 0)

\* ------------------------------------------------------------------ what must always hold
\* only a file brings in the same string twice
NoDuplicates == \A t \in Tables : \A m, n \in DOMAIN tab[t] : tab[t][m] = tab[t][n] => m = n \/ {m, n} \subseteq DOMAIN TabDup[t]
Stable == [][\A t \in Tables : \A n \in DOMAIN tab[t] : n \in DOMAIN tab'[t] /\ tab'[t][n] = tab[t][n]]_pvars
NeverShrinks == [][Len(defs') >= Len(defs)]_pvars
FirstIsPlaceholder == defs[1] = D0
InternIsIdempotent == \A t \in Tables : \A n \in DOMAIN tab[t] : tab[t][Find(t, tab[t][n]) + 1] = tab[t][n]
=============================================================================
