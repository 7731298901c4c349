----------------------------- MODULE JudgeProg ------------------------------
(* Runs a program and what the compiler made of it, through every answer the game may give. *)
EXTENDS RsSrc, RsVm, Json, IOUtils
CONSTANT MaxAsk
VARIABLES recNo, theProg, theVm, asked, failed
Problem(rec) == IF rec.err # "" THEN rec.err
                ELSE LET S == {m \in DOMAIN rec.diags : rec.diags[m].fatal} IN IF S = {} THEN "" ELSE LET d == rec.diags[CHOOSE m \in S : TRUE] IN d.code \o " " \o d.text
MainOf(M) == CHOOSE f \in DOMAIN M.fns : M.fns[f].name = "Main;"
Init == \E recs \in {ndJsonDeserialize(IOEnv.RECS)} : \E x \in DOMAIN recs :
        /\ recNo = x
        /\ failed = Problem(recs[x])
        /\ theProg = IF failed = "" THEN recs[x].prog ELSE <<>>
        /\ theVm = IF failed = "" THEN TLCEval(Machine(recs[x])) ELSE <<>>
        /\ asked = <<>>
SrcFuel == 100
VmFuel == 250
Outcome(v, s) == [stop |-> s.stop, log |-> s.log, ret |-> IF s.stop = "" THEN v ELSE NoVal]
RunSource(orc) == LET r == TLCEval(CallFn(theProg, "Main", 0, <<>>, Start(orc, SrcFuel))) IN Outcome(r[1], r[2])
RunVm(orc) == LET f == theVm.fns[MainOf(theVm)]
                  env == [x \in {f.locals[m].ix : m \in DOMAIN f.locals} |-> ZeroOf(theVm, f.locals[CHOOSE m \in DOMAIN f.locals : f.locals[m].ix = x].type)]
                  t == TLCEval(Exec(theVm, f, 1, [Start(orc, VmFuel) EXCEPT !.env = env])) IN
              Outcome(t.ret, [t EXCEPT !.stop = IF @ = "ret" THEN "" ELSE @])
Agrees(s, v) == s.stop = "out of fuel" \/ s = v
Next == /\ failed = "" /\ Len(asked) < MaxAsk
        /\ LET s == TLCEval(RunSource(asked)) IN s.stop = "cut"
        /\ \E yes \in {0, 1} : asked' = Append(asked, yes)
        /\ UNCHANGED <<recNo, theProg, theVm, failed>>
Report == IF failed # "" THEN PrintT("CASE " \o ToJson([n |-> recNo, failed |-> failed]))
          ELSE LET s == TLCEval(RunSource(asked)) v == TLCEval(RunVm(asked)) IN
               Agrees(s, v) \/ PrintT("CASE " \o ToJson([n |-> recNo, asked |-> asked, source |-> s, code |-> v]))
=============================================================================
