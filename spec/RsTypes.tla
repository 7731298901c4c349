------------------------------- MODULE RsTypes ------------------------------
(***************************************************************************)
(* Type names.  A type is [name, args].  It has three written forms:       *)
(*   Pretty   what the user reads and writes:     array<ref<Foo>>          *)
(*   Repr     what the pool stores, one chain:    array:ref:Foo            *)
(*   Mangled  what identifies an overload; reference wrappers are erased   *)
(*            wherever they occur:                array<Foo>               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE JoinStr(_, _)
JoinStr(s, sep) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o sep \o JoinStr(Tail(s), sep)

RECURSIVE Pretty(_), Repr(_), Mangled(_), Unwrap(_), Chain(_)
Pretty(t) == IF t.args = <<>> THEN t.name
             ELSE t.name \o "<" \o JoinStr([n \in DOMAIN t.args |-> Pretty(t.args[n])], ", ") \o ">"
Repr(t) == IF t.args = <<>> THEN t.name
           ELSE t.name \o ":" \o JoinStr([n \in DOMAIN t.args |-> Repr(t.args[n])], ":")
Unwrap(t) == IF t.name \in {"ref", "wref"} /\ Len(t.args) = 1 THEN Unwrap(t.args[1]) ELSE t
Mangled(t) == LET u == Unwrap(t) IN
              IF u.args = <<>> THEN u.name
              ELSE u.name \o "<" \o JoinStr([n \in DOMAIN u.args |-> Mangled(u.args[n])], ",") \o ">"
\* a chain has one argument at every level: exactly the types the pool can store and give back
Chain(t) == t.args = <<>> \/ (Len(t.args) = 1 /\ Chain(t.args[1]))
FormKind(t) == CASE t.name = "ref" -> "Ref" [] t.name = "wref" -> "WRef" [] t.name = "script_ref" -> "ScriptRef"
              [] t.name = "array" -> "Array" [] OTHER -> "Prim"
=============================================================================
