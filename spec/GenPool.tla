------------------------------ MODULE GenPool -------------------------------
(* Histories of pool operations, replayed step by step into the real pool. *)
EXTENDS RsPool, Json
CONSTANT MaxSteps
VARIABLE hist
gvars == <<tab, defs, res, hist>>

Rec(o, a) == hist' = Append(hist, [o |-> o, a |-> a, res |-> res', tab |-> tab', defs |-> defs', roots |-> Roots'])

Words == {"A", "B", "~utf8", "None"}
DefKinds == DOMAIN KindNum
Idx == 0..(Len(defs) - 1)
Tag == Len(hist) + 2

Hdr0 == [version |-> "14", flags |-> "0", timestamp |-> "0", unk3 |-> "0", chunks |-> "0"]
\* the pool with doubled strings can only come from a file
Init == /\ PoolInit
        /\ hist = IF tab = Tab0 THEN <<>>
                  ELSE << [o |-> "load", a |-> EncodeBundle(Hdr0, tab @@ [defs |-> defs]), res |-> "ok", tab |-> tab, defs |-> defs, roots |-> Roots] >>
Next ==
  \/ Len(hist) = MaxSteps /\ hist' = Append(hist, [o |-> "end"]) /\ UNCHANGED <<tab, defs, res>>
  \/ /\ Len(hist) < MaxSteps
     /\ \/ \E t \in Tables, s \in Words : Intern(t, s) /\ Rec("intern", <<t, s>>)
        \/ \E t \in Tables, s \in Words : s # "None" /\ Lookup(t, s) /\ Rec("lookup", <<t, s>>)
        \/ \E t \in Tables, i \in 0..3 : Read(t, i) /\ Rec("read", <<t, i>>)
        \/ \E k \in DefKinds, p \in {0, 2} : AddDef(Mk(k, 1, p, Tag)) /\ Rec("add", <<Mk(k, 1, p, Tag)>>)
        \/ Reserve /\ Rec("reserve", <<>>)
        \/ \E n \in {0, 1} : Stub(n) /\ Rec("stub", <<n>>)
        \/ \E i \in Idx \ {0}, k \in {"Class", "Function", "Field", "Local"} : Put(i, Mk(k, 0, 1, Tag)) /\ Rec("put", <<i, Mk(k, 0, 1, Tag)>>)
        \/ \E i, j \in Idx \ {0} : i <= j /\ Swap(i, j) /\ Rec("swap", <<i, j>>)
        \/ \E i \in Idx \ {0}, n \in {0, 1} : Rename(i, n) /\ Rec("rename", <<i, n>>)
        \/ \E i \in 0..Len(defs), k \in {"Class", "Function", "Field"} :
             /\ (i < Len(defs) => TRUE)
             /\ IF i = Len(defs) THEN res' = "refused" /\ UNCHANGED <<tab, defs>> ELSE Mutate(i, k, Tag)
             /\ Rec("mutate", <<i, k, Tag>>)
        \/ Reload /\ Rec("reload", <<>>)
EmitHist == Len(hist) = MaxSteps + 1 => PrintT("CASE " \o ToJson([k |-> "pool", hist |-> hist]))
=============================================================================
