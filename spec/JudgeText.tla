----------------------------- MODULE JudgeText ------------------------------
(* Reads back the text the decompiler printed, and compares it with the tree it was printed from. *)
EXTENDS RsText, Json, IOUtils
VARIABLES recNo, textNo, theText, theTree
Init == \E recs \in {ndJsonDeserialize(IOEnv.RECS)} : \E x \in DOMAIN recs : \E y \in DOMAIN recs[x].texts :
        /\ recNo = x /\ textNo = y
        /\ theText = recs[x].texts[y]
        /\ \A n \in DOMAIN recs[x].ast : Sound(recs[x].ast[n])
        /\ theTree = [ast |-> recs[x].ast, err |-> recs[x].err]
Next == FALSE /\ UNCHANGED <<recNo, textNo, theText, theTree>>
Say(what, x) == PrintT("CASE " \o ToJson([n |-> recNo, what |-> what, text |-> theText.text, read |-> x]))
\* the text is one function, whose body is the tree
Same == IF theTree.err # "" THEN theText.err # "" \/ Say("printed, though decompilation failed", "")
        ELSE IF theText.err # "" THEN Say("not printed: " \o theText.err, "")
        ELSE \E f \in {TLCEval(ReadFunction(theText.toks))} :
             IF ~f.ok THEN Say("the text is not a function", f.p)
             ELSE LET got == TLCEval(f.x.body) want == TLCEval(PlainSeq(theTree.ast, theText.verbose)) IN
                  got = <<want>> \/ Say("reads back as something else", [got |-> got, want |-> want])
Laid == theTree.err # "" \/ theText.err # "" \/
        ( /\ (Indented(theText.toks, theText.lines) \/ Say("a line is not indented by what it is inside of", ""))
          /\ (Broken(theText.toks, theText.lines) \/ Say("a statement does not start its own line", "")) )
=============================================================================
