----------------------------- MODULE JudgeLocals ----------------------------
(* Whether the decompiler's body declares its locals as RsLocals asks for. *)
EXTENDS RsLocals, Json, IOUtils
VARIABLES recNo, theRec
Init == \E recs \in {ndJsonDeserialize(IOEnv.RECS)} : \E x \in DOMAIN recs : recNo = x /\ theRec = recs[x]
Next == FALSE /\ UNCHANGED <<recNo, theRec>>
Say(what) == PrintT("CASE " \o ToJson([n |-> recNo, what |-> what, source |-> theRec.ast]))
LocalsOf == {LocalOf(KeyAt[theRec.locals[n]]) : n \in DOMAIN theRec.locals}
Right == IF theRec.err # "" THEN Say("not decompiled: " \o theRec.err)
         ELSE /\ DeclaredOnce(theRec.ast, LocalsOf) \/ Say("a local is not declared exactly once with its type")
              /\ DeclaredBefore(theRec.ast, LocalsOf) \/ Say("a local is mentioned before it is declared")
              /\ Undeclared(theRec.ast) = theRec.want \/ Say("not the statements of the bytecode")
=============================================================================
