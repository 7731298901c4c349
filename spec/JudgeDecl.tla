----------------------------- MODULE JudgeDecl ------------------------------
(* Reads back what definitions were printed as, and compares it with the definitions. *)
EXTENDS RsDecl, Json, IOUtils
VARIABLES recNo, textNo, theText, thePool
Init == \E recs \in {ndJsonDeserialize(IOEnv.RECS)} : \E x \in DOMAIN recs : \E y \in DOMAIN recs[x].texts :
        /\ recNo = x /\ textNo = y
        /\ theText = recs[x].texts[y]
        /\ thePool = recs[x].pool
Next == FALSE /\ UNCHANGED <<recNo, textNo, theText, thePool>>
Say(what, x) == PrintT("CASE " \o ToJson([n |-> recNo, what |-> what, text |-> theText.text, read |-> x]))
One == Len(theText.ix) = 1
Kind == DefAt(thePool, theText.ix[1]).kind
Declared ==
  IF theText.err # "" THEN Say("not printed: " \o theText.err, "")
  ELSE \E f \in {TLCEval(IF One THEN ReadAs(theText.toks, Kind) ELSE ReadUnit(theText.toks, 1, <<>>))} :
       \E want \in {TLCEval(IF One THEN Shown(thePool, theText.ix[1]) ELSE [n \in DOMAIN theText.ix |-> Shown(thePool, theText.ix[n])])} :
       IF ~f.ok THEN Say("the text is no declaration", f.p)
       ELSE IF f.p # Len(theText.toks) + 1 THEN Say("the text goes on after the declaration", f.p)
       ELSE f.x = want \/ Say("reads back as something else", [got |-> f.x, want |-> want])
Starts == {theText.lines[n].at : n \in DOMAIN theText.lines}
Laid == theText.err # "" \/
        ( /\ (Indented(theText.toks, theText.lines) \/ Say("a line is not indented by what it is inside of", ""))
          /\ (Broken(theText.toks, theText.lines) \/ Say("a declaration does not start its own line", ""))
          /\ ((\A p \in DOMAIN theText.toks : IsP(theText.toks, p, "@") => p \in Starts) \/ Say("a property does not start its own line", ""))
          /\ ((One /\ Kind = "Enum" => \A p \in DOMAIN theText.toks : p > 1 /\ IsP(theText.toks, p - 1, ",") => p \in Starts) \/ Say("a member does not start its own line", "")) )
=============================================================================
