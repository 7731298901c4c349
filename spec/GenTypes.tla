------------------------------ MODULE GenTypes ------------------------------
EXTENDS RsTypes, Json
CONSTANT Depth, Wide
VARIABLE c
Leaves == {"Int32", "Foo", "ref"}
Ctors == {"ref", "wref", "script_ref", "array", "Foo"}
T(n, a) == [name |-> n, args |-> a]
RECURSIVE Trees(_, _)
Trees(d, w) == {T(n, <<>>) : n \in Leaves} \cup
  IF d = 0 THEN {} ELSE
    {T(n, <<a>>) : n \in Ctors, a \in Trees(d - 1, w)} \cup
    (IF w THEN {T(n, <<a, b>>) : n \in {"ref", "array", "Foo"}, a, b \in Trees(d - 1, FALSE)} ELSE {})
Case(t) == [k |-> "type", t |-> t, pretty |-> Pretty(t), repr |-> Repr(t), mangled |-> Mangled(t), kind |-> FormKind(t), chain |-> Chain(t)]
Init == \/ \E t \in Trees(Depth, FALSE) : c = Case(t)
        \/ \E t \in Trees(Wide, TRUE) : c = Case(t)
Next == FALSE /\ UNCHANGED c
\* the mangled name never mentions an erased wrapper at its head, and two chains with the same repr are the same type
RECURSIVE Strip(_)
Strip(t) == LET u == Unwrap(t) IN T(u.name, [n \in DOMAIN u.args |-> Strip(u.args[n])])
MangleInv == Mangled(c.t) = Pretty(Strip(c.t)) \/ ~c.chain
EmitCase == PrintT("CASE " \o ToJson(c))
=============================================================================
