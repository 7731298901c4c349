----------------------------- MODULE JudgeCheck -----------------------------
(* Holds what the compiler said about a program against what there is to say. *)
EXTENDS RsCheck, Json, IOUtils
VARIABLES recNo, theRec
Init == \E recs \in {ndJsonDeserialize(IOEnv.RECS)} : \E x \in DOMAIN recs : recNo = x /\ theRec = recs[x]
Next == FALSE /\ UNCHANGED <<recNo, theRec>>
Heard == {<<d.file, d.line, IF d.kind = "CompileError" THEN d.code ELSE d.kind>> : d \in Range(theRec.diags)}
\* remarks do not stop anybody; what is shown is the line it is about
Shown == \A d \in Range(theRec.diags) : (d.fatal <=> d.kind \notin Remarks) /\ d.shown
Right(want) == IF want.hard # {} THEN theRec.hard \in want.hard ELSE theRec.hard = "" /\ Heard = want.said /\ Shown
Report == LET want == TLCEval(CkProgram(theRec.prog)) IN
          want.odd \/ Right(want) \/ PrintT("CASE " \o ToJson([n |-> recNo, wanted |-> want, hard |-> theRec.hard, heard |-> Heard, shown |-> Shown]))
=============================================================================
