------------------------------- MODULE RsCheck ------------------------------
(***************************************************************************)
(* What is wrong with a program: the rules of the language's types, names  *)
(* and calls, and what a compiler says about a program that breaks them.   *)
(* Everything is looked up by its name here, as it is written: the keys    *)
(* RsSrc runs programs by may be wrong.                                    *)
(* P: [fns, classes, enums, at], at: where each function starts.           *)
(* A complaint is <<file, line, what>>; what: the code of an error, or the *)
(* kind of a remark.  A function says the first thing that makes sense of  *)
(* no more of it (stop), or everything it can say (errs and the rest);     *)
(* what only shows when code is written (hard) is said of nothing else.    *)
(***************************************************************************)
EXTENDS RsSrc

ClassT(c) == Ty("class", c, <<>>)
NullT == Ty("null", "Null", <<>>)
CName == Prim("CName")
\* no type, for a reason nobody has to hear unless the type matters
Unsaid(code) == Ty("lazy", code, <<>>)
Prims == {"Int32", "Bool", "String", "Float", "Double", "Int64", "CName"}
Root == "IScriptable"

IsClass(P, n) == n \in DOMAIN P.classes
NamedType(P, n) == IF IsClass(P, n) THEN <<IF P.classes[n].struct THEN StructT(n) ELSE ClassT(n)>>
                   ELSE IF n \in DOMAIN P.enums THEN <<EnumT(n)>> ELSE IF n \in Prims THEN <<Prim(n)>> ELSE IF n = "Variant" THEN <<VariantT>> ELSE <<>>
RECURSIVE Known(_, _), Conv(_, _, _), Lub(_, _, _), Unwrapped(_)
Known(P, t) == IF t.of # <<>> THEN Known(P, t.of[1]) ELSE NamedType(P, t.n) # <<>>
Unwrapped(t) == IF t.k \in {"ref", "wref", "sref"} THEN Unwrapped(t.of[1]) ELSE t
\* a class and what it is derived from
Chain(P, c) == IF ~IsClass(P, c) THEN <<c>> ELSE Ancestry(P, c) \o (IF P.classes[c].struct THEN <<>> ELSE <<Root>>)

\* how a value of type f becomes one of type t: "" if it does not
Conv(P, f, t) ==
  CASE f = t -> "id"
    [] f.k = "null" /\ t.k = "ref" -> "id"
    [] f.k = "null" /\ t.k = "wref" -> "weak"
    [] f.k = "class" /\ t.k = "class" -> IF t.n \in Range(Chain(P, f.n)) THEN "id" ELSE ""
    [] f.k = t.k /\ f.k \in {"ref", "wref"} -> IF Conv(P, f.of[1], t.of[1]) = "id" THEN "id" ELSE ""
    [] f.k = "wref" /\ t.k = "ref" -> IF Conv(P, f.of[1], t.of[1]) = "id" THEN "strong" ELSE ""
    [] f.k = "ref" /\ t.k = "wref" -> IF Conv(P, f.of[1], t.of[1]) = "id" THEN "weak" ELSE ""
    [] t.k = "sref" -> IF Conv(P, f, t.of[1]) = "id" THEN "refer" ELSE ""
    [] t.k = "variant" -> "wrap"
    [] OTHER -> ""
\* the type that has both: <<>> if none
Lub(P, a, b) ==
  CASE a = b -> <<a>>
    [] a.k = "null" /\ b.k \in {"ref", "wref"} -> <<b>>
    [] b.k = "null" /\ a.k \in {"ref", "wref"} -> <<a>>
    [] a.k = b.k /\ a.k \in {"ref", "wref"} -> LET l == Lub(P, a.of[1], b.of[1]) IN IF l = <<>> THEN <<>> ELSE <<Ty(a.k, a.n, l)>>
    [] a.k = "class" /\ b.k = "class" -> LET ca == Chain(P, a.n) both == {m \in DOMAIN ca : ca[m] \in Range(Chain(P, b.n))} IN
                                         IF both = {} THEN <<>> ELSE <<ClassT(ca[CHOOSE m \in both : \A o \in both : m <= o])>>
    [] OTHER -> <<>>

\* ------------------------------------------------ what is said about an expression
\* t: its type; tmp: whether it is a temporary; errs: what is reported; stop: what ends the function ("" if nothing does);
\* late: what ends it once everything else is checked; hard: what is said when code is written; temps: whether a temporary is used as none
\* can be; used: the variables in it; sym: it names a type
Said(t) == [t |-> t, tmp |-> FALSE, errs |-> {}, stop |-> "", late |-> {}, hard |-> {}, temps |-> FALSE, used |-> {}, sym |-> FALSE]
Stop(code) == [Said(NoTy) EXCEPT !.stop = code]
\* everything said about some expressions, from left to right, and then t
Join(rs, t) == LET S == {m \in DOMAIN rs : rs[m].stop # ""} IN
  [Said(t) EXCEPT !.tmp = TRUE, !.errs = UNION {rs[m].errs : m \in DOMAIN rs}, !.late = UNION {rs[m].late : m \in DOMAIN rs}, !.hard = UNION {rs[m].hard : m \in DOMAIN rs},
                  !.temps = \E m \in DOMAIN rs : rs[m].temps, !.used = UNION {rs[m].used : m \in DOMAIN rs},
                  !.stop = IF S = {} THEN "" ELSE rs[CHOOSE m \in S : \A o \in S : m <= o].stop]
\* the type matters here
Force(r) == IF r.stop = "" /\ r.t.k = "lazy" THEN [r EXCEPT !.stop = r.t.n] ELSE r
Err(r, code) == [r EXCEPT !.errs = @ \cup {code}]
StopIf(b, r, code) == IF r.stop = "" /\ b THEN [r EXCEPT !.stop = code] ELSE r
HardIf(b, r, code) == IF b THEN [r EXCEPT !.hard = @ \cup {code}] ELSE r
Converted(P, r, t) == LET c == Conv(P, r.t, t) IN
  IF r.stop # "" THEN r ELSE IF c = "" THEN Err(r, "TYPE_ERR") ELSE IF c = "id" THEN r
  ELSE HardIf(c = "wrap" /\ r.t.k = "void", [r EXCEPT !.t = t, !.tmp = TRUE], "POOL_ERR")

\* ------------------------------------------------ functions
MinArgs(ps) == Cardinality({m \in DOMAIN ps : ~ps[m].opt})
Op2(a, b, r) == [ps |-> <<[y |-> a, opt |-> FALSE], [y |-> b, opt |-> FALSE]>>, ret |-> <<r>>, static |-> TRUE]
Op1(a, r) == [ps |-> <<[y |-> a, opt |-> FALSE]>>, ret |-> <<r>>, static |-> TRUE]
Operators(op) == CASE op = "Add" -> <<Op2(Int32, Int32, Int32), Op2(ScriptRef(Str), ScriptRef(Str), Str)>>
                   [] op \in ArithOps \/ op \in {"Assign" \o o : o \in AsgOps} -> <<Op2(Int32, Int32, Int32)>>
                   [] op \in RelOps -> <<Op2(Int32, Int32, Bool)>>
                   [] op \in {"LogicAnd", "LogicOr"} -> <<Op2(Bool, Bool, Bool)>>
                   [] op = "LogicNot" -> <<Op1(Bool, Bool)>>
                   [] op \in {"Neg", "BitNot"} -> <<Op1(Int32, Int32)>>
AsCand(f) == [ps |-> f.params, ret |-> f.ret, static |-> f.cls = "" \/ "static" \in Range(f.quals)]
Named(P, cls, name) == LET S == {f \in DOMAIN P.fns : P.fns[f].cls = cls /\ P.fns[f].name = name} IN LET q == SetToSeq(S) IN [m \in DOMAIN q |-> AsCand(P.fns[q[m]])]
Methods(P, c, name) == LET ch == Chain(P, c) IN FlattenSeq([m \in DOMAIN ch |-> Named(P, ch[m], name)])

Arity == [f \in {"Equals", "NotEquals", "ArrayResize", "ArrayFindFirst", "ArrayFindLast", "ArrayContains", "ArrayCount", "ArrayPush", "ArrayRemove", "ArrayGrow", "ArrayErase"} |-> 2]
         @@ [f \in {"ArrayPop", "ArrayClear", "ArraySize", "ArrayLast", "ToString", "EnumInt", "IntEnum", "ToVariant", "FromVariant", "VariantTypeName", "IsDefined"} |-> 1]
         @@ ("ArrayInsert" :> 3)
\* what an array function takes after the array ("e": an element), and what it gives
ArrayTakes == [f \in {"ArrayFindFirst", "ArrayFindLast", "ArrayContains", "ArrayCount", "ArrayPush", "ArrayRemove"} |-> <<"e">>]
              @@ [f \in {"ArrayResize", "ArrayGrow", "ArrayErase"} |-> <<"i">>] @@ [f \in {"ArrayPop", "ArrayClear", "ArraySize", "ArrayLast"} |-> <<>>] @@ ("ArrayInsert" :> <<"i", "e">>)
ArrayGives(f, elem) == CASE f \in {"ArrayFindFirst", "ArrayFindLast", "ArrayPop", "ArrayLast"} -> elem [] f \in {"ArrayContains", "ArrayRemove", "ArrayErase"} -> Bool
                         [] f \in {"ArraySize", "ArrayCount"} -> Int32 [] OTHER -> NoTy
\* what reads an array where it is
ReadsInPlace == {"ArrayContains", "ArrayCount", "ArrayFindFirst", "ArrayFindLast", "ArrayLast", "ArrayPop", "ArraySize"}

\* c: [P, vars, this, ret, brk]: the program, the variables [x, t, id], the class ("" if none), the type returned, whether break means anything
\* w: what is wanted: <<>> or a type
RECURSIVE Ck(_, _, _), Call(_, _, _), MethodOf(_, _, _, _)
Wanted(c, e, t) == Converted(c.P, Force(Ck(c, e, <<t>>)), t)
\* the function that answers: the first one the arguments fit
Call(c, cands, args) ==
  LET n == Len(args)
      elig == SelectSeq(cands, LAMBDA f : n >= MinArgs(f.ps) /\ n <= Len(f.ps))
      rs == TLCEval([m \in DOMAIN args |-> Ck(c, args[m], IF Len(elig) = 1 THEN <<elig[1].ps[m].y>> ELSE <<>>)])
      Bad(f) == {m \in DOMAIN rs : rs[m].t.k = "lazy" \/ Conv(c.P, rs[m].t, f.ps[m].y) = ""}
      First(S) == CHOOSE m \in S : \A o \in S : m <= o
      Fate(f) == IF Bad(f) = {} THEN "fits" ELSE LET t == rs[First(Bad(f))].t IN IF t.k = "lazy" THEN t.n ELSE "no"
      all == Join(rs, NoTy)
      odd == {m \in DOMAIN elig : Fate(elig[m]) \notin {"fits", "no"}}
      fit == {m \in DOMAIN elig : Fate(elig[m]) = "fits"}
  IN IF all.stop # "" THEN [r |-> all, static |-> FALSE]
     ELSE IF odd # {} THEN [r |-> Stop(Fate(elig[First(odd)])), static |-> FALSE]
     ELSE IF fit = {} THEN [r |-> Stop("NO_MATCHING_OVERLOAD"), static |-> FALSE]
     \* which one answers is not for anybody to say
     ELSE IF \E m \in fit : elig[m].ret # elig[First(fit)].ret \/ elig[m].static # elig[First(fit)].static THEN [r |-> Stop("?"), static |-> FALSE]
     ELSE LET f == elig[First(fit)] IN
          [r |-> Join([m \in DOMAIN rs |-> Converted(c.P, rs[m], f.ps[m].y)], IF f.ret = <<>> THEN NoTy ELSE f.ret[1]), static |-> f.static]
\* a method of what o is
MethodOf(c, o, name, args) ==
  LET t == Unwrapped(o.t) ms == Methods(c.P, t.n, name) IN
  IF o.stop # "" THEN o
  ELSE IF t.k \notin {"class", "struct"} THEN Stop("INVALID_MEMBER_ACCESS")
  ELSE IF ms = <<>> THEN Stop("UNRESOLVED_METHOD")
  ELSE LET a == TLCEval(Call(c, ms, args)) r == Join(<<IF o.sym THEN [o EXCEPT !.hard = {}] ELSE o, a.r>>, a.r.t) IN
       HardIf(a.static /\ ~o.sym, HardIf(~a.static /\ o.sym, r, "INVALID_NONSTATIC_USE"), "INVALID_STATIC_USE")
\* a field of what o is
Fields(P, n) == IF IsClass(P, n) THEN AllFields(P, n) ELSE <<>>
Member(c, o, x) ==
  LET t == Unwrapped(o.t) fs == SelectSeq(Fields(c.P, t.n), LAMBDA f : f.x = x) IN
  IF o.stop # "" THEN o
  ELSE IF t.k \notin {"class", "struct", "enum"} THEN Stop("INVALID_MEMBER_ACCESS")
  ELSE IF t.k = "enum" THEN (IF \E m \in DOMAIN c.P.enums[t.n] : c.P.enums[t.n][m].x = x THEN [o EXCEPT !.t = t, !.tmp = TRUE, !.sym = FALSE, !.hard = {}] ELSE Stop("UNRESOLVED_MEMBER"))
  ELSE IF fs = <<>> THEN Stop("UNRESOLVED_MEMBER")
  ELSE IF t.k = "class" THEN [o EXCEPT !.t = fs[1].y, !.tmp = FALSE, !.sym = FALSE]
  ELSE [o EXCEPT !.t = fs[1].y, !.temps = @ \/ o.tmp, !.sym = FALSE]
Variable(c, x) ==
  LET m == Find1(c.vars, x) IN
  IF m # 0 THEN [Said(c.vars[m].t) EXCEPT !.used = {c.vars[m].id}]
  ELSE IF IsClass(c.P, x) \/ x \in DOMAIN c.P.enums THEN [Said(NamedType(c.P, x)[1]) EXCEPT !.sym = TRUE, !.hard = {"UNSUPPORTED"}]
  ELSE IF Named(c.P, "", x) # <<>> THEN [Said(Unsaid("UNSUPPORTED")) EXCEPT !.hard = {"UNSUPPORTED"}]
  ELSE Stop("UNRESOLVED_REF")
Builtin(c, f, a, y, w) ==
  LET first == TLCEval(Force(Ck(c, a[1], <<>>))) elem == first.t.of[1] wrong == StopIf(TRUE, first, "TYPE_ERR") to == IF y # <<>> THEN y ELSE w
      Give(t) == [first EXCEPT !.t = t, !.tmp = TRUE, !.sym = FALSE]
      NotVoid(r) == HardIf(first.t.k = "void", r, "POOL_ERR") IN
  IF y # <<>> /\ ~Known(c.P, y[1]) THEN Stop("UNRESOLVED_TYPE")
  ELSE IF Len(a) # Arity[f] THEN Stop("NO_MATCHING_OVERLOAD")
  ELSE IF first.stop # "" THEN first
  ELSE CASE f \in {"Equals", "NotEquals"} ->
         LET snd == TLCEval(Force(Ck(c, a[2], <<first.t>>))) r == Join(<<first, snd>>, Bool) IN
         NotVoid(IF r.stop = "" /\ Lub(c.P, first.t, snd.t) = <<>> THEN Err(r, "Deprecation") ELSE r)
    [] f \in DOMAIN ArrayTakes /\ first.t.k = "array" ->
         LET rest == TLCEval([m \in DOMAIN ArrayTakes[f] |-> Wanted(c, a[m + 1], IF ArrayTakes[f][m] = "e" THEN elem ELSE Int32)])
             r == Join(<<first>> \o rest, ArrayGives(f, elem)) IN
         [r EXCEPT !.temps = @ \/ (f \in ReadsInPlace /\ first.tmp)]
    [] f \in {"ToString"} -> NotVoid(Give(Str))
    [] f = "EnumInt" /\ first.t.k = "enum" -> Give(Int32)
    [] f = "IntEnum" /\ to # <<>> -> IF to[1].k = "enum" THEN Give(to[1]) ELSE wrong
    [] f = "ToVariant" -> NotVoid(Give(VariantT))
    [] f = "FromVariant" /\ first.t.k = "variant" /\ to # <<>> -> Give(to[1])
    [] f = "VariantTypeName" /\ first.t.k = "variant" -> Give(CName)
    [] f = "IsDefined" /\ first.t.k \in {"ref", "wref", "null", "variant"} -> Give(Bool)
    [] OTHER -> wrong
Function(c, name, a, y, w) == IF name \in DOMAIN Arity THEN Builtin(c, name, a, y, w)
                              ELSE IF y # <<>> /\ ~Known(c.P, y[1]) THEN Stop("UNRESOLVED_TYPE")
                              ELSE LET fs == Named(c.P, "", name) IN IF fs = <<>> THEN Stop("UNRESOLVED_FN") ELSE Call(c, fs, a).r
Numbers == {"Float", "Double", "Int64"}
Ck(c, e, w) ==
  CASE e.k = "int" -> Said(IF w # <<>> /\ w[1].k = "prim" /\ w[1].n \in Numbers THEN w[1] ELSE Int32)
    [] e.k = "bool" -> Said(Bool)
    [] e.k = "str" -> Said(Str)
    [] e.k = "null" -> [Said(NullT) EXCEPT !.tmp = TRUE]
    [] e.k = "this" -> Said(IF c.this = "" THEN Unsaid("UNEXPECTED_THIS") ELSE RefTo(c.this))
    [] e.k = "var" -> Variable(c, e.s[1])
    [] e.k = "bin" -> Call(c, Operators(e.s[1]), e.a).r
    [] e.k = "un" -> Call(c, Operators(e.s[1]), e.a).r
    [] e.k = "cond" -> LET b == TLCEval(Wanted(c, e.a[1], Bool)) l == TLCEval(Force(Ck(c, e.a[2], <<>>))) r == TLCEval(Ck(c, e.a[3], <<l.t>>)) u == Lub(c.P, l.t, r.t) IN
                       Join(<<b, l, r>>, IF r.t.k = "lazy" THEN r.t ELSE IF u = <<>> THEN Unsaid("TYPE_ERR") ELSE u[1])
    [] e.k = "call" -> Function(c, e.s[2], e.a, <<>>, w)
    [] e.k = "fun" -> Function(c, e.s[1], e.a, e.y, w)
    [] e.k = "mcall" -> MethodOf(c, Force(Ck(c, e.a[1], <<>>)), e.s[2], Tail(e.a))
    [] e.k = "scall" -> MethodOf(c, Force(Variable(c, e.s[2])), e.s[3], e.a)
    [] e.k = "super" -> MethodOf(c, IF c.this = "" THEN Stop("UNEXPECTED_THIS") ELSE Said(RefTo(Chain(c.P, c.this)[2])), e.s[2], e.a)
    [] e.k \in {"field", "part"} -> Member(c, Force(Ck(c, e.a[1], <<>>)), e.s[1])
    [] e.k = "enum" -> Member(c, Force(Variable(c, e.s[1])), e.s[2])
    [] e.k = "elem" -> LET o == TLCEval(Ck(c, e.a[1], <<>>)) i == TLCEval(Wanted(c, e.a[2], Int32))
                           t == IF o.t.k = "lazy" THEN o.t ELSE IF o.t.k = "array" THEN o.t.of[1] ELSE Unsaid("UNSUPPORTED") r == Join(<<o, i>>, t) IN
                       HardIf(t.k = "lazy", [r EXCEPT !.tmp = o.tmp, !.temps = @ \/ o.tmp], t.n)
    [] e.k \in {"new", "struct"} ->
         LET t == NamedType(c.P, e.s[1]) IN
         IF t = <<>> THEN Stop("UNRESOLVED_TYPE")
         ELSE IF t[1].k = "class" THEN (IF e.a # <<>> THEN Stop("NO_MATCHING_OVERLOAD") ELSE [Said(RefTo(e.s[1])) EXCEPT !.tmp = TRUE])
         ELSE IF t[1].k # "struct" THEN Stop("UNSUPPORTED")
         ELSE LET fs == FieldsOf(c.P, e.s[1]) IN
              IF Len(fs) # Len(e.a) THEN Stop("NO_MATCHING_OVERLOAD") ELSE Join(TLCEval([m \in DOMAIN fs |-> Wanted(c, e.a[m], fs[m].y)]), t[1])
    [] e.k = "arr" ->
         IF e.a = <<>> THEN (IF w = <<>> THEN Stop("TYPE_ANN_REQUIRED") ELSE IF w[1].k = "array" THEN Said(w[1]) ELSE Stop("TYPE_ERR"))
         ELSE LET rs == TLCEval([m \in DOMAIN e.a |-> IF w # <<>> /\ w[1].k = "array" THEN Wanted(c, e.a[m], w[1].of[1]) ELSE Ck(c, e.a[m], <<>>)])
                  all == Join(rs, NoTy)
                  \* the type of all of them so far, or why there is none
                  t == FoldLeft(LAMBDA acc, r : IF acc.k = "lazy" THEN acc ELSE IF r.t.k = "lazy" THEN r.t ELSE LET l == Lub(c.P, acc, r.t) IN IF l = <<>> THEN Unsaid("TYPE_ERR") ELSE l[1],
                                rs[1].t, Tail(rs)) IN
              [StopIf(t.k = "lazy", all, t.n) EXCEPT !.t = ArrOf(t), !.tmp = FALSE]
    [] e.k = "interp" -> LET rs == TLCEval([m \in DOMAIN e.a |-> Ck(c, e.a[m], <<>>)]) r == Join(rs, Str) IN
         [r EXCEPT !.late = @ \cup {rs[m].t.n : m \in {m \in DOMAIN rs : rs[m].t.k = "lazy"}} \cup (IF \E m \in DOMAIN rs : rs[m].t.k = "void" THEN {"UNSUPPORTED"} ELSE {})]
    [] e.k = "as" -> LET t == NamedType(c.P, e.s[1]) r == TLCEval(Force(Ck(c, e.a[1], <<>>))) IN
         IF t = <<>> THEN Stop("UNRESOLVED_TYPE")
         ELSE HardIf(t[1].k # "class", [r EXCEPT !.t = IF r.t.k \in {"ref", "wref"} THEN Ty("ref", "ref", t) ELSE IF r.t.k = "sref" THEN ScriptRef(t[1]) ELSE t[1], !.tmp = TRUE, !.sym = FALSE], "UNSUPPORTED")

\* ------------------------------------------------ statements
\* what is said, by line; decl: the lines variables are declared on, used: those of variables that are; ret: whether it always returns
Quiet == [errs |-> {}, stop |-> <<>>, late |-> {}, hard |-> {}, decl |-> {}, used |-> {}, ret |-> FALSE]
At(line, r) == [Quiet EXCEPT !.errs = {<<line, x>> : x \in r.errs \cup (IF r.temps THEN {"InvalidUseOfTemporary"} ELSE {})}, !.stop = IF r.stop = "" THEN <<>> ELSE <<line, r.stop>>,
                             !.late = {<<line, x>> : x \in r.late}, !.hard = r.hard, !.used = r.used]
Both(a, b) == [errs |-> a.errs \cup b.errs, stop |-> IF a.stop # <<>> THEN a.stop ELSE b.stop, late |-> a.late \cup b.late, hard |-> a.hard \cup b.hard,
               decl |-> a.decl \cup b.decl, used |-> a.used \cup b.used, ret |-> a.ret \/ b.ret]
\* lines end after braces and semicolons
Lines(toks) == Cardinality({m \in DOMAIN toks : toks[m] \in {"{", "}", ";"}})
RECURSIVE CkS(_, _, _), CkB(_, _, _)
CkB(c, b, line) == FoldLeft(LAMBDA acc, s : LET r == TLCEval(CkS(acc.c, s, acc.line)) IN [c |-> r.c, line |-> acc.line + Lines(Stmt(s)), r |-> Both(acc.r, r.r)], [c |-> c, line |-> line, r |-> Quiet], b).r
Here(c, r) == [c |-> c, r |-> r]
Ends0(b) == b = <<>> \/ b[Len(b)].k \in {"break", "return"}
CkS(c, s, line) ==
  CASE s.k = "let" ->
         LET want == s.n = 1
             r == IF want /\ ~Known(c.P, s.y[1]) THEN Stop("UNRESOLVED_TYPE")
                  ELSE IF s.a = <<>> THEN (IF want THEN Said(s.y[1]) ELSE Stop("TYPE_ANN_REQUIRED"))
                  ELSE IF want THEN Wanted(c, s.a[1], s.y[1]) ELSE Force(Ck(c, s.a[1], <<>>))
             t == IF want THEN s.y[1] ELSE IF r.t.k = "null" THEN RefTo(Root) ELSE r.t IN
         [c |-> [c EXCEPT !.vars = Append(@, [x |-> s.s[1], t |-> t, id |-> line])], r |-> [At(line, StopIf(t.k = "void", r, "POOL_ERR")) EXCEPT !.decl = {line}]]
    [] s.k = "set" -> LET l == TLCEval(Force(Ck(c, s.a[1], <<>>))) IN
         IF l.stop # "" THEN Here(c, At(line, l)) ELSE Here(c, At(line, Join(<<l, Wanted(c, s.a[2], l.t)>>, NoTy)))
    [] s.k = "op" -> Here(c, At(line, Call(c, Operators(s.s[1]), s.a).r))
    [] s.k = "do" -> Here(c, At(line, Ck(c, s.a[1], <<>>)))
    [] s.k = "return" -> LET r == IF s.a = <<>> THEN (IF c.ret = <<>> THEN Said(NoTy) ELSE Stop("TYPE_ERR"))
                                  ELSE IF c.ret = <<>> THEN Stop("TYPE_ERR") ELSE Wanted(c, s.a[1], c.ret[1]) IN Here(c, [At(line, r) EXCEPT !.ret = TRUE])
    [] s.k = "break" -> Here(c, IF c.brk THEN Quiet ELSE [Quiet EXCEPT !.hard = {"UNSUPPORTED"}])
    [] s.k = "if" -> LET b == At(line, Wanted(c, s.a[1], Bool)) x == TLCEval(CkB(c, s.b[1], line + 1)) l2 == line + 2 + Lines(Block(s.b[1]))
                         y == IF Len(s.b) = 1 THEN Quiet ELSE IF s.n = 1 /\ Len(s.b[2]) = 1 /\ s.b[2][1].k = "if" THEN CkB(c, s.b[2], l2) ELSE CkB(c, s.b[2], l2 + 1) IN
                     Here(c, [Both(b, Both(x, y)) EXCEPT !.ret = x.ret /\ y.ret])
    [] s.k = "while" -> Here(c, [Both(At(line, Wanted(c, s.a[1], Bool)), CkB([c EXCEPT !.brk = TRUE], s.b[1], line + 1)) EXCEPT !.ret = FALSE])
    [] s.k = "for" -> LET a == TLCEval(Force(Ck(c, s.a[1], <<>>))) r == StopIf(a.t.k # "array", a, "TYPE_ERR") IN
         IF r.stop # "" THEN Here(c, At(line, r))
         ELSE Here(c, [Both(At(line, r), CkB([c EXCEPT !.brk = TRUE, !.vars = Append(@, [x |-> s.s[1], t |-> a.t.of[1], id |-> line])], s.b[1], line + 1)) EXCEPT !.ret = FALSE])
    [] s.k = "switch" ->
         LET v == TLCEval(Ck(c, s.a[1], <<>>)) n == Len(s.a) - 1
             w == IF v.t.k = "lazy" THEN <<>> ELSE <<v.t>>
             v1 == HardIf(v.t.k \in {"lazy", "void"}, v, IF v.t.k = "lazy" THEN v.t.n ELSE "POOL_ERR")
             in == [c EXCEPT !.brk = TRUE]
             \* the line a case starts on
             start == [m \in 1..(Len(s.b) + 1) |-> line + 1 + FoldLeft(LAMBDA acc, o : acc + Lines(Block(s.b[o])), 0, [o \in 1..(m - 1) |-> o])]
             ms == TLCEval([m \in 1..n |-> At(start[m], Ck(c, s.a[m + 1], w))])
             bs == TLCEval([m \in DOMAIN s.b |-> CkB(in, s.b[m], start[m])])
             falls == {<<start[m], "StatementFallthrough">> : m \in {m \in 1..(n - 1) : ~Ends0(s.b[m])}}
             all == FoldLeft(Both, At(line, v1), FlattenSeq([m \in DOMAIN s.b |-> IF m <= n THEN <<ms[m], bs[m]>> ELSE <<bs[m]>>])) IN
         Here(c, [all EXCEPT !.errs = @ \cup falls, !.ret = \A m \in DOMAIN bs : bs[m].ret])

\* ------------------------------------------------ programs
\* what is said about a function: [said, hard, odd], odd: more than one thing may be said first
CkFn(P, key) ==
  LET f == P.fns[key] static == f.cls = "" \/ "static" \in Range(f.quals) at == P.at[key]
      c == [P |-> P, vars |-> [m \in DOMAIN f.params |-> [x |-> f.params[m].x, t |-> f.params[m].y, id |-> 0]], this |-> IF static THEN "" ELSE f.cls, ret |-> f.ret, brk |-> FALSE]
      r == TLCEval(CkB(c, f.body, at[2] + 1))
      Placed0(S) == {<<at[1], x[1], x[2]>> : x \in S} IN
  IF r.stop # <<>> THEN [said |-> Placed0({r.stop}), hard |-> {}, odd |-> r.stop[2] = "?"]
  ELSE IF r.late # {} THEN [said |-> Placed0(r.late), hard |-> {}, odd |-> Cardinality(r.late) > 1]
  ELSE [said |-> Placed0(r.errs \cup {<<l, "UnusedLocal">> : l \in r.decl \ r.used} \cup (IF f.ret # <<>> /\ ~r.ret THEN {<<at[2], "MissingReturn">>} ELSE {})), hard |-> r.hard, odd |-> FALSE]
Remarks == {"UnusedLocal", "MissingReturn", "Deprecation"}
CkProgram(P) == LET rs == [f \in DOMAIN P.at |-> TLCEval(CkFn(P, f))] IN
  [said |-> UNION {rs[f].said : f \in DOMAIN rs}, hard |-> UNION {rs[f].hard : f \in DOMAIN rs}, odd |-> \E f \in DOMAIN rs : rs[f].odd]
=============================================================================
