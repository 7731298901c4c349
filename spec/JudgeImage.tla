----------------------------- MODULE JudgeImage -----------------------------
(* Looks at the bundle each compilation of a recording left. *)
EXTENDS RsImage, Json, IOUtils
VARIABLES recNo, complaints
Named(D, k, n) == {x \in DOMAIN D : D[x].k = k /\ D[x].short = n}
OwnNames(D, x, k) == {D[r.i].short : r \in {r \in Range(D[x].owns) : r.k = k}}
ClassRefs(D, x) == {D[r.i].name : r \in Range(Refs(D, x, "class"))}
ClassAs(D, w) == LET S == Named(D, "class", w.name) IN
  IF Cardinality(S) # 1 THEN {<<"not declared once", w.name>>}
  ELSE LET x == CHOOSE x \in S : TRUE IN
       (IF ClassRefs(D, x) # {w.base} THEN {<<"base", w.name>>} ELSE {})
       \cup (IF OwnNames(D, x, "field") # Range(w.fields) \/ OwnNames(D, x, "function") # Range(w.fns) THEN {<<"members", w.name>>} ELSE {})
       \cup {<<"type of field", w.name>> : r \in {r \in Range(D[x].owns) : r.k = "field" /\ {D[t.i].name : t \in Range(D[r.i].refs)} # {w.of}}}
       \cup {<<"class in code", D[r.i].short>> : r \in {r \in Range(D[x].owns) : r.k = "function" /\ ~(ClassRefs(D, r.i) \subseteq {w.name})}}
       \cup {<<"class made", w.make>> : f \in {f \in Named(D, "function", w.make) : ClassRefs(D, f) # {w.name}}}
Judge(rec) ==
  IF rec.err # "" THEN {<<"failed", rec.err>>}
  ELSE IF \E m \in DOMAIN rec.diags : rec.diags[m].fatal THEN {<<"rejected", rec.diags[m].text>> : m \in {m \in DOMAIN rec.diags : rec.diags[m].fatal}}
  ELSE LET I == rec.images Z == I[Len(I)] IN
       {<<"compiled twice, differs", m>> : m \in {m \in DOMAIN rec.again : rec.again[m][1] # rec.again[m][2]}}
       \cup UNION {{<<b[1], I[m][b[2]].name>> : b \in Bad(I[m])} : m \in 2..Len(I)}
       \cup UNION {{<<"changed", I[m][x].name>> : x \in Changed(I[m], I[m + 1], Range(rec.want.touched[m]))} : m \in 1..(Len(I) - 1)}
       \cup UNION {{<<"lost", I[m][x].name>> : x \in Lost(I[m], I[m + 1])} : m \in 1..(Len(I) - 1)}
       \cup UNION {ClassAs(Z, rec.want.classes[m]) : m \in DOMAIN rec.want.classes}
       \cup UNION {{<<"line", p.name>> : p \in {p \in Range(rec.places[m]) : p.name \in Range(rec.want.places) /\ p.name \notin Range(p.words)}} : m \in DOMAIN rec.places}
Init == \E recs \in {ndJsonDeserialize(IOEnv.RECS)} : \E x \in DOMAIN recs : recNo = x /\ complaints = TLCEval(Judge(recs[x]))
Next == FALSE /\ UNCHANGED <<recNo, complaints>>
Report == complaints = {} \/ PrintT("CASE " \o ToJson([n |-> recNo, complaints |-> complaints]))
=============================================================================
