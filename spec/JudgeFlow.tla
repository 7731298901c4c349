----------------------------- MODULE JudgeFlow ------------------------------
(* Runs the bytecode and what the decompiler made of it side by side, through every outcome of every condition. *)
(* (TLC takes any bound name that equals a variable's for the variable, and then re-evaluates constants: hence the long names.) *)
EXTENDS RsFlow, Json, IOUtils
VARIABLES recNo, vmProg, inFn, vmAt, srcAt
vars == <<recNo, vmProg, inFn, vmAt, srcAt>>
Init == \E recs \in {ndJsonDeserialize(IOEnv.RECS)} : \E x \in DOMAIN recs :
        /\ recNo = x
        /\ vmProg = TLCEval(Prog(recs[x].code))
        /\ inFn = KeyAt[recs[x].fn]
        /\ vmAt = Settle(vmProg, "run", 1)
        /\ srcAt = IF recs[x].err = "" THEN Calm(recs[x].ast) ELSE <<Nd("Failed", <<recs[x].err>>, <<>>)>>
Next == LET v == TLCEval(VSeen(inFn, vmProg, vmAt)) s == TLCEval(SSeen(srcAt)) IN
        /\ v = s /\ ~Final(s)
        /\ \E yes \in (IF Forks(s) THEN BOOLEAN ELSE {TRUE}) : vmAt' = VGo(vmProg, vmAt, yes) /\ srcAt' = SGo(srcAt, yes)
        /\ UNCHANGED <<recNo, vmProg, inFn>>
Report == LET v == TLCEval(VSeen(inFn, vmProg, vmAt)) s == TLCEval(SSeen(srcAt)) IN
          v = s \/ PrintT("CASE " \o ToJson([n |-> recNo, code |-> v, source |-> s]))
=============================================================================
