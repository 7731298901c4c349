----------------------------- MODULE JudgeDefs ------------------------------
(* Compares what was defined with what was declared. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, Functions, Json, IOUtils, TLC
VARIABLES recNo, complaints
\* flags have no order
Norm(d) == [x \in DOMAIN d |-> IF x = "flags" THEN Range(d.flags) ELSE IF x = "params" THEN [n \in DOMAIN d.params |-> [d.params[n] EXCEPT !.flags = Range(@)]] ELSE d[x]]
Key(d) == <<d.k, IF "of" \in DOMAIN d THEN d.of ELSE "", d.name>>
Differ(w, g) == {x \in DOMAIN w \cup DOMAIN g : x \notin DOMAIN w \/ x \notin DOMAIN g \/ w[x] # g[x]}
Judge(rec) ==
  IF rec.err # "" THEN {<<"failed", rec.err>>}
  ELSE IF \E m \in DOMAIN rec.diags : rec.diags[m].fatal THEN {<<"rejected", rec.diags[m].text>> : m \in {m \in DOMAIN rec.diags : rec.diags[m].fatal}}
  ELSE LET W == {Norm(rec.want[n]) : n \in DOMAIN rec.want} G == {Norm(rec.defs[n]) : n \in DOMAIN rec.defs}
           wk == {Key(w) : w \in W} gk == {Key(g) : g \in G} IN
       {<<"missing", k>> : k \in wk \ gk} \cup {<<"extra", k>> : k \in gk \ wk}
       \cup (IF Len(rec.defs) # Cardinality(gk) THEN {<<"defined twice">>} ELSE {})
       \cup UNION {UNION {{<<"differs", Key(w), x, IF x \in DOMAIN w THEN ToString(w[x]) ELSE "", IF x \in DOMAIN g THEN ToString(g[x]) ELSE "">> : x \in Differ(w, g)} : g \in {g \in G : Key(g) = Key(w)}} : w \in W}
Init == \E recs \in {ndJsonDeserialize(IOEnv.RECS)} : \E x \in DOMAIN recs : recNo = x /\ complaints = TLCEval(Judge(recs[x]))
Next == FALSE /\ UNCHANGED <<recNo, complaints>>
Report == complaints = {} \/ PrintT("CASE " \o ToJson([n |-> recNo, complaints |-> complaints]))
=============================================================================
