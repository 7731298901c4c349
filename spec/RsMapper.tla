------------------------------ MODULE RsMapper ------------------------------
(***************************************************************************)
(* Remapping a pool: every reference to a mapped class or function is      *)
(* replaced, simultaneously and once (a chain a->b->c moves a to b), and   *)
(* nothing else changes.                                                   *)
(*   references to a class:    the base of a class, the owner of a         *)
(*     function or of a field, the operand of Construct, New, DynamicCast; *)
(*   references to a function: the owner of a parameter or of a local, the *)
(*     operand of InvokeStatic.                                            *)
(* A map is a function whose domain are the mapped indices.                *)
(***************************************************************************)
EXTENDS RsBundle

Apply(m, i) == IF i \in DOMAIN m THEN m[i] ELSE i

ClassOperand == [Construct |-> 2, New |-> 1, DynamicCast |-> 1]
FunOperand == [InvokeStatic |-> 3]
MapInstr(i, cm, fm) ==
  IF i.op \in DOMAIN ClassOperand THEN [i EXCEPT !.args[ClassOperand[i.op]] = Apply(cm, @)]
  ELSE IF i.op \in DOMAIN FunOperand THEN [i EXCEPT !.args[FunOperand[i.op]] = Apply(fm, @)]
  ELSE i

MapDef(d, cm, fm) ==
  CASE d.kind = "Class" -> [d EXCEPT !.base = Apply(cm, @)]
    [] d.kind = "Function" -> [d EXCEPT !.parent = Apply(cm, @),
                                        !.code = [n \in DOMAIN @ |-> MapInstr(@[n], cm, fm)]]
    [] d.kind = "Field" -> [d EXCEPT !.parent = Apply(cm, @)]
    [] d.kind \in {"Parameter", "Local"} -> [d EXCEPT !.parent = Apply(fm, @)]
    [] OTHER -> d

MapPool(ds, cm, fm) == [n \in DOMAIN ds |-> MapDef(ds[n], cm, fm)]
=============================================================================
