------------------------------- MODULE RsDecl -------------------------------
(***************************************************************************)
(* Definitions as text: what a definition of the pool shows as, as the     *)
(* parts of a declaration, and reading such declarations (the grammar of   *)
(* compiler/src/parser.rs, with what only the game's own scripts have:     *)
(* inline, replicated, edit, @default, arrays of fixed length).            *)
(*   Shown(p, n)      the declaration that definition n of pool p is       *)
(*   ReadDecl(T, q)   the declaration that starts at token q               *)
(* Modifiers may come in any order, and are sets.                          *)
(***************************************************************************)
EXTENDS RsText

NumOf == [t \in {NumText[n] : n \in 0..199} |-> CHOOSE n \in 0..199 : NumText[n] = t]
DefAt(p, t) == p.defs[NumOf[t] + 1]
NameIn(p, t) == IF t = "0" THEN "None" ELSE p.names[NumOf[t] + 1]
NameFor(p, d) == NameIn(p, d.name)

\* ---------------------------------------------------------------- what definitions show as
\* flags that show as words
ClassWords == [is_abstract |-> "abstract", is_final |-> "final"]
FieldWords == [is_inline |-> "inline", is_replicated |-> "replicated", is_editable |-> "edit", is_native |-> "native", is_persistent |-> "persistent", is_const |-> "const"]
FunWords == [is_final |-> "final", is_static |-> "static", is_native |-> "native", is_exec |-> "exec", is_const |-> "const", is_quest |-> "quest", is_callback |-> "cb"]
ParamWords == [is_out |-> "out", is_optional |-> "opt", is_const |-> "const"]
VisWord == [Public |-> "public", Protected |-> "protected", Private |-> "private"]
Elems(s) == {s[n] : n \in DOMAIN s}
WordsOf(tab, flags) == {tab[f] : f \in Elems(flags) \cap DOMAIN tab}

RECURSIVE TypeSpelled(_, _)
TypeSpelled(p, t) ==
  LET d == DefAt(p, t) IN
  CASE d.type \in {"Prim", "Class"} -> NameFor(p, d)
    [] d.type = "Ref" -> "ref:" \o TypeSpelled(p, d.inner) [] d.type = "WeakRef" -> "wref:" \o TypeSpelled(p, d.inner)
    [] d.type = "ScriptRef" -> "script_ref:" \o TypeSpelled(p, d.inner)
    [] d.type = "Array" -> "array:" \o TypeSpelled(p, d.inner)
    [] d.type = "StaticArray" -> "array:" \o TypeSpelled(p, d.inner) \o ";" \o d.size
ParamShown(p, t) == LET d == DefAt(p, t) IN [words |-> WordsOf(ParamWords, d.flags), name |-> NameFor(p, d), type |-> TypeSpelled(p, d.type)]
RECURSIVE Shown(_, _)
Shown(p, t) ==
  LET d == DefAt(p, t)
      nm == NameFor(p, d)
  IN CASE d.kind = "Type" -> [k |-> "Type", type |-> TypeSpelled(p, t)]
       [] d.kind = "Parameter" -> [k |-> "Parameter", param |-> ParamShown(p, t)]
       [] d.kind = "Local" -> [k |-> "Local", words |-> {IF "is_const" \in Elems(d.flags) THEN "const" ELSE "let"}, name |-> nm, type |-> TypeSpelled(p, d.type)]
       [] d.kind = "EnumValue" -> [k |-> "EnumValue", name |-> nm, value |-> d.value]
       [] d.kind = "Enum" -> [k |-> "Enum", name |-> nm, members |-> [n \in DOMAIN d.members |-> Shown(p, d.members[n])]]
       [] d.kind = "Field" -> [k |-> "Field", words |-> WordsOf(FieldWords, d.flags) \cup {VisWord[d.vis]}, name |-> nm, type |-> TypeSpelled(p, d.type),
                               props |-> [n \in DOMAIN d.attrs |-> <<"runtimeProperty">> \o d.attrs[n]] \o [n \in DOMAIN d.defaults |-> <<"default">> \o d.defaults[n]]]
       [] d.kind = "Function" -> [k |-> "Function", words |-> WordsOf(FunWords, d.flags) \cup {VisWord[d.vis]}, name |-> CutAt(nm, 1),
                                  params |-> [n \in DOMAIN d.params |-> ParamShown(p, d.params[n])],
                                  ret |-> IF d.ret = <<>> THEN "Void" ELSE TypeSpelled(p, d.ret[1]), body |-> "has_body" \in Elems(d.flags)]
       [] d.kind = "Class" ->
            LET fl == Elems(d.flags) IN
            [k |-> "Class", is |-> IF "is_struct" \in fl THEN "struct" ELSE "class", name |-> nm, base |-> IF d.base = "0" THEN "" ELSE NameFor(p, DefAt(p, d.base)),
             words |-> WordsOf(ClassWords, d.flags) \cup {VisWord[d.vis]}
                       \cup (IF "is_import_only" \in fl THEN {"importonly"} ELSE IF "is_native" \in fl THEN {"native"} ELSE {}),
             members |-> [n \in DOMAIN d.fields |-> Shown(p, d.fields[n])] \o [n \in DOMAIN d.functions |-> Shown(p, d.functions[n])]]

\* ---------------------------------------------------------------- reading declarations
\* a word given twice is no set
SetOf(ws) == IF Cardinality(Elems(ws)) = Len(ws) THEN Elems(ws) ELSE {"twice"} \cup Elems(ws)
Signed(T, p) == LET m == IF IsP(T, p, "-") THEN 1 ELSE 0 IN
                IF Tk(T, p + m).t \in {"I32", "I64", "BigI32", "BigI64", "Wide"} THEN Got((IF m = 1 THEN "-" ELSE "") \o Tk(T, p + m).v, p + m + 1) ELSE Bad(p)
RMember(T, p) == LET v == TLCEval(IF IsId(T, p) /\ IsP(T, p + 1, "=") THEN Signed(T, p + 2) ELSE Bad(p)) IN
                 IF v.ok THEN Got([k |-> "EnumValue", name |-> Tk(T, p).v, value |-> v.x], v.p) ELSE v
RECURSIVE RMembers(_, _, _), RProps(_, _, _), RBody(_, _, _), ReadDecl(_, _)
RMembers(T, p, acc) ==
  IF IsP(T, p, "}") THEN Got(acc, p + 1)
  ELSE LET m == TLCEval(RMember(T, p)) IN
       IF ~m.ok THEN m ELSE IF IsP(T, m.p, ",") THEN RMembers(T, m.p + 1, Append(acc, m.x)) ELSE IF IsP(T, m.p, "}") THEN Got(Append(acc, m.x), m.p + 1) ELSE Bad(m.p)
\* @name(a, b)
RProps(T, p, acc) ==
  IF IsP(T, p, "@") /\ IsId(T, p + 1) /\ IsP(T, p + 2, "(") /\ IsP(T, p + 4, ",") /\ IsP(T, p + 6, ")")
     /\ (Tk(T, p + 1).v = "runtimeProperty") = (Tk(T, p + 3).t = "Str" /\ Tk(T, p + 5).t = "Str")
  THEN RProps(T, p + 7, Append(acc, <<Tk(T, p + 1).v, Tk(T, p + 3).v, Tk(T, p + 5).v>>))
  ELSE Got(acc, p)
RBody(T, p, acc) == IF IsP(T, p, "}") THEN Got(acc, p + 1)
                    ELSE LET d == TLCEval(ReadDecl(T, p)) IN IF d.ok THEN RBody(T, d.p, Append(acc, d.x)) ELSE d
ReadDecl(T, p) ==
  LET ps == TLCEval(RProps(T, p, <<>>))
      w == TLCEval(RWords(T, ps.p, <<>>))
      what == Tk(T, w.p).v
      nm == Tk(T, w.p + 1).v
  IN CASE ~w.ok -> w
       [] ps.x # <<>> /\ what # "let" -> Bad(p)
       [] what = "func" ->
            LET f == TLCEval(RFunction(T, p)) IN
            IF ~f.ok THEN f
            ELSE Got([k |-> "Function", words |-> SetOf(f.x.words), name |-> f.x.name, ret |-> f.x.ret, body |-> f.x.body # <<>>,
                      params |-> [n \in DOMAIN f.x.params |-> [f.x.params[n] EXCEPT !.words = SetOf(f.x.params[n].words)]]], f.p)
       [] what = "let" ->
            LET ty == TLCEval(IF IsId(T, w.p + 1) /\ IsP(T, w.p + 2, ":") THEN RType(T, w.p + 3) ELSE Bad(p)) IN
            IF ty.ok /\ IsP(T, ty.p, ";") THEN Got([k |-> "Field", words |-> SetOf(w.x), name |-> nm, type |-> ty.x, props |-> ps.x], ty.p + 1) ELSE Bad(p)
       [] what = "enum" ->
            LET ms == TLCEval(IF w.x = <<>> /\ IsId(T, w.p + 1) /\ IsP(T, w.p + 2, "{") THEN RMembers(T, w.p + 3, <<>>) ELSE Bad(p)) IN
            IF ms.ok THEN Got([k |-> "Enum", name |-> nm, members |-> ms.x], ms.p) ELSE ms
       [] what \in {"class", "struct"} ->
            LET ext == IsK(T, w.p + 2, "extends") /\ IsId(T, w.p + 3)
                open == IF ext THEN w.p + 4 ELSE w.p + 2
                b == TLCEval(IF IsId(T, w.p + 1) /\ IsP(T, open, "{") THEN RBody(T, open + 1, <<>>) ELSE Bad(p))
            IN IF b.ok THEN Got([k |-> "Class", is |-> what, name |-> nm, base |-> IF ext THEN Tk(T, w.p + 3).v ELSE "", words |-> SetOf(w.x), members |-> b.x], b.p) ELSE b
       [] OTHER -> Bad(p)
\* a definition by itself, of the kind expected
ReadAs(T, kind) ==
  CASE kind = "Type" -> LET ty == RType(T, 1) IN IF ty.ok THEN Got([k |-> "Type", type |-> ty.x], ty.p) ELSE ty
    [] kind = "Parameter" -> LET w == TLCEval(RParamWords(T, 1, <<>>)) ty == TLCEval(IF w.ok THEN RType(T, w.p + 2) ELSE w) IN
         IF ty.ok THEN Got([k |-> "Parameter", param |-> [words |-> SetOf(w.x), name |-> Tk(T, w.p).v, type |-> ty.x]], ty.p) ELSE ty
    [] kind = "Local" -> LET w == TLCEval(RParamWords(T, 1, <<>>)) ty == TLCEval(IF w.ok THEN RType(T, w.p + 2) ELSE w) IN
         IF ty.ok /\ IsP(T, ty.p, ";") THEN Got([k |-> "Local", words |-> SetOf(w.x), name |-> Tk(T, w.p).v, type |-> ty.x], ty.p + 1) ELSE Bad(1)
    [] kind = "EnumValue" -> LET m == TLCEval(RMember(T, 1)) IN IF m.ok /\ IsP(T, m.p, ",") THEN Got(m.x, m.p + 1) ELSE Bad(1)
    [] OTHER -> ReadDecl(T, 1)
\* declarations one after the other, and nothing else
RECURSIVE ReadUnit(_, _, _)
ReadUnit(T, p, acc) == IF p > Len(T) THEN Got(acc, p) ELSE LET d == TLCEval(ReadDecl(T, p)) IN IF d.ok THEN ReadUnit(T, d.p, Append(acc, d.x)) ELSE d
=============================================================================
