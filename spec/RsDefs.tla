------------------------------- MODULE RsDefs -------------------------------
(***************************************************************************)
(* What declarations define.  A compilation takes files; a file belongs to *)
(* a module, imports names, and declares classes, structs, enums and       *)
(* functions, each under conditions.  Names are looked up where they are   *)
(* written; what is defined is named in full.                              *)
(***************************************************************************)
EXTENDS RsTypes, SequencesExt, FiniteSetsExt, Functions

Ty(n) == [name |-> n, args |-> <<>>]
Of(k, t) == [name |-> k, args |-> <<t>>]
\* ---------------------------------------------------------------- modules
Path(mod, n) == JoinStr(Append(mod, n), ".")
Short(e) == e.name
Full(e) == Path(e.mod, e.name)
\* ---------------------------------------------------------------- conditions
RECURSIVE Holds(_, _)
Holds(c, mods) ==
  CASE c.k = "lit" -> c.v
    [] c.k = "exists" -> c.mod \in mods
    [] c.k = "not" -> ~Holds(c.a, mods)
    [] c.k = "and" -> Holds(c.a, mods) /\ Holds(c.b, mods)
    [] c.k = "or" -> Holds(c.a, mods) \/ Holds(c.b, mods)
    [] c.k = "if" -> IF Holds(c.c, mods) THEN Holds(c.a, mods) ELSE Holds(c.b, mods)
All(conds, mods) == \A n \in DOMAIN conds : Holds(conds[n], mods)
\* ---------------------------------------------------------------- what is visible in a file
\* ents: everything there is by now.  An import brings in what is public; enums always are.
Public(e) == e.vis = "public" \/ e.k = "enum"
Brings(i, e) == CASE i.k = "one" -> i.mod = e.mod /\ i.names = <<e.name>>
                  [] i.k = "some" -> i.mod = e.mod /\ e.name \in Range(i.names)
                  [] i.k = "all" -> i.mod = e.mod
Visible(f, imports, e) == e.mod = <<>> \/ e.mod = f.mod \/ (Public(e) /\ \E n \in DOMAIN imports : Brings(imports[n], e))
\* ---------------------------------------------------------------- names of types, in full
RECURSIVE Resolve(_, _)
Resolve(t, V) == [name |-> IF \E e \in V : e.k # "func" /\ e.name = t.name THEN LET e == CHOOSE e \in V : e.k # "func" /\ e.name = t.name IN Full(e) ELSE t.name,
                  args |-> [n \in DOMAIN t.args |-> Resolve(t.args[n], V)]]
TypeOf(t, V) == Repr(Resolve(t, V))
\* ---------------------------------------------------------------- functions
Operators == {"OperatorAdd", "OperatorNotEqual", "OperatorAssignAdd", "OperatorLogicNot"}
\* the name a function goes by: what the game calls from outside has none of its types in it; an operator has its result too
IsOp(f) == f.name \in {"OperatorAdd", "OperatorNotEqual", "OperatorAssignAdd"}
Signature(f) ==
  IF ~IsOp(f) /\ f.name # "Cast" /\ {"cb", "exec", "native"} \cap Range(f.quals) # {} THEN f.name
  ELSE LET ps == JoinStr([n \in DOMAIN f.params |-> (IF IsOp(f) /\ "out" \in Range(f.params[n].quals) THEN "Out" ELSE "") \o Mangled(f.params[n].type)], "")
       IN f.name \o ";" \o ps \o (IF IsOp(f) \/ f.name = "Cast" THEN ";" \o (IF f.ret = <<>> THEN "Void" ELSE Mangled(f.ret[1])) ELSE "")
\* what a local is before it is assigned: constants and constructions, as code
Starts(t, V) ==
  CASE t.name = "Bool" -> <<"Bool false">>
    [] t.name \in {"Int8", "Int16", "Int32", "Int64", "Uint8", "Uint16", "Uint32", "Uint64", "Float", "Double"} -> <<t.name \o " 0">>
    [] t.name \in {"String", "CName", "TweakDBID", "ResRef"} -> <<t.name \o " ">>
    [] t.name = "ref" -> <<"null">>
    [] t.name = "wref" -> <<"weak null">>
    [] t.name = "array" -> <<"clear " \o TypeOf(t, V)>>
    [] OTHER -> LET e == CHOOSE e \in V : e.k # "func" /\ e.name = t.name IN IF e.k = "enum" THEN <<"enum " \o Full(e) \o " " \o e.values[1][1]>> ELSE <<"make " \o Full(e)>>
FnFlags(f, inClass) == LET q == Range(f.quals) IN
  {x \in {"native", "exec", "final", "const", "quest"} : x \in q} \cup (IF "cb" \in q THEN {"callback"} ELSE {})
  \cup (IF "static" \in q \/ ~inClass THEN {"static"} ELSE {}) \cup (IF f.name = "Cast" THEN {"cast"} ELSE {})
  \cup (IF f.ret # <<>> THEN {"value"} ELSE {}) \cup (IF f.params # <<>> THEN {"params"} ELSE {})
ParFlags(p) == LET q == Range(p.quals) IN {x \in {"opt", "out", "const"} : x \in q}
FnDef(f, of, vis, V, place) ==
  [k |-> "function", name |-> IF of = "" THEN Path(f.mod, Signature(f)) ELSE Signature(f), of |-> of, vis |-> vis, flags |-> SetToSeq(FnFlags(f, of # "")),
   ret |-> IF f.ret = <<>> THEN "" ELSE TypeOf(f.ret[1], V),
   params |-> [n \in DOMAIN f.params |-> [name |-> f.params[n].name, type |-> TypeOf(f.params[n].type, V), flags |-> SetToSeq(ParFlags(f.params[n]))]],
   locals |-> IF f.body = <<>> THEN <<>> ELSE [n \in DOMAIN f.body[1].locals |-> [name |-> f.body[1].locals[n].name, type |-> TypeOf(f.body[1].locals[n].type, V)]],
   uses |-> IF f.body = <<>> THEN <<>> ELSE f.body[1].uses \o f.last, file |-> IF "native" \in Range(f.quals) THEN "" ELSE place[1], line |-> IF "native" \in Range(f.quals) THEN -1 ELSE place[2]]   \* (what is native has no source)
\* ---------------------------------------------------------------- fields, classes, enums
FieldDef(m, of, vis, V) ==
  [k |-> "field", name |-> m.name, of |-> of, vis |-> vis, flags |-> SetToSeq({"browsable"} \cup {x \in {"native", "persistent"} : x \in Range(m.quals)}),
   type |-> TypeOf(m.type, V), attrs |-> m.attrs, defaults |-> IF m.value = <<>> THEN <<>> ELSE << <<of, m.value[1].means>> >>]
ClassFlags(e) == LET q == Range(e.quals) IN
  (IF "native" \in q \/ "importonly" \in q THEN {"native"} ELSE {}) \cup (IF "abstract" \in q /\ e.k = "class" THEN {"abstract"} ELSE {})
  \cup {x \in {"final", "importonly"} : x \in q} \cup (IF e.k = "struct" THEN {"struct"} ELSE {})
Vis(v) == IF v = "" THEN "private" ELSE v
=============================================================================
