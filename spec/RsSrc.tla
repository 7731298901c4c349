-------------------------------- MODULE RsSrc -------------------------------
(***************************************************************************)
(* REDscript as people write it: programs, the text they are written as,   *)
(* and what they do.                                                       *)
(* A node is [k, s, n, a, b, y]: its kind, its names, a number, the        *)
(* expressions and the blocks it is made of, the types it involves.        *)
(* A program is                                                            *)
(*   fns      key -> [cls, name, quals, params, ret, body, native]         *)
(*   classes  name -> [base, fields, struct]; a parameter or field is      *)
(*            [x, y, out, opt]                                             *)
(*   meth     class -> slot -> key of the function that answers            *)
(*   enums    name -> member -> value                                      *)
(* Calls name the function they mean (its key): the rules that say which   *)
(* that is are in GenProg, where calls are written.                        *)
(***************************************************************************)
EXTENDS RsVal

Node(k) == [k |-> k, s |-> <<>>, n |-> 0, a |-> <<>>, b |-> <<>>, y |-> <<>>]
NodeS(k, s, a) == [Node(k) EXCEPT !.s = s, !.a = a]
\* types
Ty(k, n, of) == [k |-> k, n |-> n, of |-> of]
Prim(n) == Ty("prim", n, <<>>)
Int32 == Prim("Int32")
Bool == Prim("Bool")
Str == Prim("String")
ArrOf(t) == Ty("array", "array", <<t>>)
RefTo(c) == Ty("ref", "ref", <<Ty("class", c, <<>>)>>)
WRefTo(c) == Ty("wref", "wref", <<Ty("class", c, <<>>)>>)
StructT(n) == Ty("struct", n, <<>>)
EnumT(n) == Ty("enum", n, <<>>)
VariantT == Ty("variant", "Variant", <<>>)
ScriptRef(t) == Ty("sref", "script_ref", <<t>>)
NoTy == Ty("void", "Void", <<>>)

\* ================================================================ text
RECURSIVE TypeToks(_)
TypeToks(t) == <<t.n>> \o (IF t.of = <<>> THEN <<>> ELSE <<"~", "<">> \o TypeToks(t.of[1]) \o <<">">>)

Sym == ("Add" :> "+") @@ ("Subtract" :> "-") @@ ("Multiply" :> "*") @@ ("Divide" :> "/") @@ ("Modulo" :> "%") @@ ("Or" :> "|") @@ ("Xor" :> "^")
       @@ ("And" :> "&") @@ ("Less" :> "<") @@ ("LessEqual" :> "<=") @@ ("Greater" :> ">") @@ ("GreaterEqual" :> ">=") @@ ("Equal" :> "==")
       @@ ("NotEqual" :> "!=") @@ ("LogicAnd" :> "&&") @@ ("LogicOr" :> "||") @@ ("LogicNot" :> "!") @@ ("Neg" :> "-") @@ ("BitNot" :> "~ ")
       @@ ("AssignAdd" :> "+=") @@ ("AssignSubtract" :> "-=") @@ ("AssignMultiply" :> "*=") @@ ("AssignDivide" :> "/=") @@ ("AssignOr" :> "|=") @@ ("AssignAnd" :> "&=")
\* how tightly an operator binds: operators of a level group to the left, an operand of a higher level needs no parentheses
BinLevel == ("LogicOr" :> 1) @@ ("LogicAnd" :> 2) @@ ("Or" :> 3) @@ ("Xor" :> 4) @@ ("And" :> 5) @@ ("Equal" :> 6) @@ ("NotEqual" :> 6) @@ ("Less" :> 7)
            @@ ("LessEqual" :> 7) @@ ("Greater" :> 7) @@ ("GreaterEqual" :> 7) @@ ("Add" :> 8) @@ ("Subtract" :> 8) @@ ("Multiply" :> 9) @@ ("Divide" :> 9) @@ ("Modulo" :> 9)
Level(e) == CASE e.k = "cond" -> 0 [] e.k = "bin" -> BinLevel[e.s[1]] [] e.k = "un" -> 10 [] e.k \in {"new", "struct"} -> 10 [] OTHER -> 11
RECURSIVE Sep(_, _)
Sep(ss, sep) == IF ss = <<>> THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o <<sep>> \o Sep(Tail(ss), sep)
Quoted(text) == "\"" \o text \o "\""
RECURSIVE Toks(_, _), Toks0(_)
\* written where level l or higher is wanted; more parentheses than needed where n says so
Toks(e, l) == IF Level(e) < l \/ (e.n = 77 /\ Level(e) < 11) THEN <<"(">> \o Toks0(e) \o <<")">> ELSE Toks0(e)
Args(a) == Sep([m \in DOMAIN a |-> Toks(a[m], 0)], ",")
Toks0(e) ==
  CASE e.k = "int" -> <<ToString(e.n)>>
    [] e.k = "lit" -> <<e.s[2]>>
    [] e.k = "bool" -> <<IF e.n = 1 THEN "true" ELSE "false">>
    [] e.k = "str" -> <<Quoted(e.s[1])>>
    [] e.k = "var" -> <<e.s[1]>>
    [] e.k \in {"this", "null"} -> <<e.k>>
    \* not the arguments of a generic call
    [] e.k = "bin" /\ e.s[1] = "Less" /\ e.a[2].k = "var" -> Toks(e.a[1], BinLevel[e.s[1]]) \o <<"<", "(">> \o Toks(e.a[2], 0) \o <<")">>
    [] e.k = "bin" -> Toks(e.a[1], BinLevel[e.s[1]]) \o <<Sym[e.s[1]]>> \o Toks(e.a[2], BinLevel[e.s[1]] + 1)
    [] e.k = "un" -> <<Sym[e.s[1]]>> \o Toks(e.a[1], 11)
    [] e.k = "cond" -> Toks(e.a[1], 1) \o <<"?">> \o Toks(e.a[2], 0) \o <<":">> \o Toks(e.a[3], 0)
    [] e.k = "call" -> <<e.s[2], "~", "(">> \o Args(e.a) \o <<")">>
    [] e.k = "fun" -> <<e.s[1], "~">> \o (IF e.y = <<>> THEN <<>> ELSE <<"<">> \o TypeToks(e.y[1]) \o <<">">>) \o <<"(">> \o Args(e.a) \o <<")">>
    [] e.k = "mcall" -> Toks(e.a[1], 11) \o <<"~", ".", "~", e.s[2], "(">> \o Args(Tail(e.a)) \o <<")">>
    [] e.k = "scall" -> <<e.s[2], "~", ".", "~", e.s[3], "(">> \o Args(e.a) \o <<")">>
    [] e.k = "super" -> <<"super", "~", ".", "~", e.s[2], "(">> \o Args(e.a) \o <<")">>
    [] e.k \in {"field", "part"} -> Toks(e.a[1], 11) \o <<"~", ".", "~", e.s[1]>>
    [] e.k = "elem" -> Toks(e.a[1], 11) \o <<"[">> \o Toks(e.a[2], 0) \o <<"]">>
    [] e.k \in {"new", "struct"} -> <<"new", e.s[1], "(">> \o Args(e.a) \o <<")">>
    [] e.k = "arr" -> <<"[">> \o Args(e.a) \o <<"]">>
    [] e.k = "interp" -> <<"s", "~", "\"", "~", e.s[1], "~">>
         \o FlattenSeq([m \in DOMAIN e.a |-> <<"\\(", "~">> \o Toks(e.a[m], 0) \o <<"~", ")", "~", e.s[m + 1], "~">>]) \o <<"\"">>
    [] e.k = "enum" -> <<e.s[1], "~", ".", "~", e.s[2]>>
    [] e.k = "as" -> Toks(e.a[1], 11) \o <<"as", e.s[1]>>

RECURSIVE Block(_), Stmt(_)
Block(b) == FlattenSeq([m \in DOMAIN b |-> Stmt(b[m])])
Braces(b) == <<"{">> \o Block(b) \o <<"}">>
Stmt(s) ==
  CASE s.k = "let" -> <<"let", s.s[1]>> \o (IF s.n = 1 THEN <<":">> \o TypeToks(s.y[1]) ELSE <<>>)
                      \o (IF s.a = <<>> THEN <<>> ELSE <<"=">> \o Toks(s.a[1], 0)) \o <<";">>
    [] s.k = "set" -> Toks(s.a[1], 1) \o <<"=">> \o Toks(s.a[2], 0) \o <<";">>
    [] s.k = "op" -> Toks(s.a[1], 1) \o <<Sym[s.s[1]]>> \o Toks(s.a[2], 0) \o <<";">>
    [] s.k = "do" -> Toks(s.a[1], 0) \o <<";">>
    [] s.k = "return" -> <<"return">> \o (IF s.a = <<>> THEN <<>> ELSE Toks(s.a[1], 0)) \o <<";">>
    [] s.k = "break" -> <<"break", ";">>
    [] s.k = "if" -> <<"if">> \o Toks(s.a[1], 0) \o Braces(s.b[1]) \o (IF Len(s.b) = 1 THEN <<>> ELSE
         IF s.n = 1 /\ Len(s.b[2]) = 1 /\ s.b[2][1].k = "if" THEN <<"else">> \o Stmt(s.b[2][1]) ELSE <<"else">> \o Braces(s.b[2]))
    [] s.k = "while" -> <<"while">> \o Toks(s.a[1], 0) \o Braces(s.b[1])
    [] s.k = "for" -> <<"for", s.s[1], "in">> \o Toks(s.a[1], 0) \o Braces(s.b[1])
    [] s.k = "switch" -> <<"switch">> \o Toks(s.a[1], 0) \o <<"{">>
         \o FlattenSeq([m \in 1..(Len(s.a) - 1) |-> <<"case">> \o Toks(s.a[m + 1], 0) \o <<":">> \o Block(s.b[m])])
         \o (IF s.n = 1 THEN <<"default", ":">> \o Block(s.b[Len(s.b)]) ELSE <<>>) \o <<"}">>

Param(p) == (IF p.out THEN <<"out">> ELSE <<>>) \o (IF p.opt THEN <<"opt">> ELSE <<>>) \o <<p.x, ":">> \o TypeToks(p.y)
FnToks(f) == f.quals \o <<"func", f.name, "(">> \o Sep([m \in DOMAIN f.params |-> Param(f.params[m])], ",") \o <<")">>
             \o (IF f.ret = <<>> THEN <<>> ELSE <<"->">> \o TypeToks(f.ret[1])) \o (IF f.native THEN <<>> ELSE Braces(f.body))
ClassToks(name, c, fns) == c.quals \o <<IF c.struct THEN "struct" ELSE "class", name>> \o (IF c.base = "" THEN <<>> ELSE <<"extends", c.base>>) \o <<"{">>
             \o FlattenSeq([m \in DOMAIN c.fields |-> <<"let", c.fields[m].x, ":">> \o TypeToks(c.fields[m].y) \o <<";">>])
             \o FlattenSeq([m \in DOMAIN fns |-> FnToks(fns[m])]) \o <<"}">>

\* ================================================================ meaning
RECURSIVE Zero(_, _)
FieldsOf(P, c) == P.classes[c].fields
Zero(P, t) == CASE t.k = "prim" -> (CASE t.n = "Int32" -> IntV(0) [] t.n = "Bool" -> BoolV(FALSE) [] t.n = "String" -> TextV("") [] OTHER -> Lit(t.n, ""))
                [] t.k = "array" -> ArrV(<<>>)
                [] t.k = "ref" -> RefV(0)
                [] t.k = "wref" -> WRefV(0)
                [] t.k = "struct" -> StructV(t.n, [m \in DOMAIN FieldsOf(P, t.n) |-> Zero(P, FieldsOf(P, t.n)[m].y)])
                [] t.k = "enum" -> EnumV(t.n, P.enums[t.n][1].n)
                [] OTHER -> NoVal
Cat(v) == CASE v.k \in {"int", "bool", "str", "struct", "enum", "lit"} -> v.t [] v.k = "arr" -> "array" [] OTHER -> v.k
\* a value that goes where type t is expected
Coerce(t, v) == CASE t.k = "wref" /\ v.k = "ref" -> WRefV(v.n)
                  [] t.k = "ref" /\ v.k = "wref" -> RefV(v.n)
                  [] t.k = "variant" /\ v.k # "variant" -> Val("variant", Cat(v), 0, <<v>>)
                  [] OTHER -> v
Printed(v) == IF v.k = "str" THEN v.e ELSE <<PrintedV(Cat(v), v)>>
RECURSIVE Ancestry(_, _)
Ancestry(P, c) == IF c \notin DOMAIN P.classes THEN <<>> ELSE <<c>> \o Ancestry(P, P.classes[c].base)
AllFields(P, c) == FlattenSeq([m \in DOMAIN Ancestry(P, c) |-> FieldsOf(P, Ancestry(P, c)[m])])
Fresh(P, c) == [c |-> c, f |-> [x \in {f.x : f \in Range(AllFields(P, c))} |-> LET fs == AllFields(P, c) IN Zero(P, fs[CHOOSE m \in DOMAIN fs : fs[m].x = x].y)]]

\* variables: the last one of a name is the one that counts
Bound(x, v, t) == [x |-> x, v |-> v, t |-> t]
Find1(env, x) == LET S == {m \in DOMAIN env : env[m].x = x} IN IF S = {} THEN 0 ELSE CHOOSE m \in S : \A o \in S : o <= m
ReadAt(s, p) == CASE p.r = "env" -> LET m == Find1(s.env, p.x) IN IF m = 0 THEN NoVal ELSE Parts(s.env[m].v, p.st)
                  [] p.r = "obj" -> Parts(s.heap[p.o].f[p.x], p.st)
                  [] p.r = "tmp" -> Parts(p.v, p.st)
                  [] OTHER -> NoVal
WriteAt(s, p, v) == IF s.stop # "" THEN s
  ELSE CASE p.r = "env" -> LET m == Find1(s.env, p.x) IN IF m = 0 THEN s ELSE [s EXCEPT !.env[m].v = Put(@, p.st, v)]
         [] p.r = "obj" -> [s EXCEPT !.heap[p.o].f[p.x] = Put(@, p.st, v)]
         [] OTHER -> s

IsPlace(e) == e.k \in {"var", "field", "part", "elem"}
RECURSIVE Ev(_, _, _), Place(_, _, _), EvAll(_, _, _), CallFn(_, _, _, _, _), Run(_, _, _), RunBlock(_, _, _), Loop(_, _, _, _), Each(_, _, _, _, _), Matches(_, _, _, _, _)
\* the place an expression names
Place(P, e, s) ==
  IF s.stop # "" THEN <<Nowhere, s>>
  ELSE CASE e.k = "var" -> <<PathOf("env", e.s[1], 0, NoVal), s>>
    [] e.k = "field" -> LET o == TLCEval(Ev(P, e.a[1], s)) IN
         IF IsRef(o[1]) /\ o[1].n > 0 /\ e.s[1] \in DOMAIN o[2].heap[o[1].n].f THEN <<PathOf("obj", e.s[1], o[1].n, NoVal), o[2]>> ELSE <<Nowhere, o[2]>>
    \* n: the position of the field in the struct
    [] e.k = "part" -> LET p == TLCEval(Place(P, e.a[1], s)) IN <<Down(p[1], e.n), p[2]>>
    [] e.k = "elem" -> LET p == TLCEval(Place(P, e.a[1], s)) i == TLCEval(Ev(P, e.a[2], p[2])) IN
         IF i[1].k = "int" THEN <<Down(p[1], i[1].n + 1), i[2]>> ELSE <<Nowhere, i[2]>>
    [] OTHER -> LET v == TLCEval(Ev(P, e, s)) IN <<PathOf("tmp", "", 0, v[1]), v[2]>>

\* all of a list, from left to right: <<values, state>>
EvAll(P, es, s) == FoldLeft(LAMBDA acc, e : LET v == TLCEval(Ev(P, e, acc[2])) IN <<Append(acc[1], v[1]), v[2]>>, <<<<>>, s>>, es)

Ev(P, e, s) ==
  IF s.stop # "" THEN <<NoVal, s>>
  ELSE CASE e.k = "int" -> <<IntV(e.n), s>>
    [] e.k = "lit" -> <<Lit(e.s[1], e.s[3]), s>>
    [] e.k = "bool" -> <<BoolV(e.n = 1), s>>
    [] e.k = "str" -> <<TextV(e.s[1]), s>>
    [] e.k = "null" -> <<RefV(0), s>>
    [] e.k = "this" -> <<RefV(s.this), s>>
    [] IsPlace(e) -> LET p == TLCEval(Place(P, e, s)) IN <<ReadAt(p[2], p[1]), p[2]>>
    [] e.k = "bin" /\ e.s[1] \in {"LogicAnd", "LogicOr"} ->
         LET f == "Operator" \o e.s[1] \o ";BoolBool;Bool" a == TLCEval(Ev(P, e.a[1], s)) IN
         IF Needed(f, a[1]) THEN LET b == TLCEval(Ev(P, e.a[2], a[2])) IN <<OpValue(f, <<a[1], b[1]>>), b[2]>>
         ELSE <<OpValue(f, <<a[1], a[1]>>), a[2]>>
    [] e.k = "bin" -> LET v == TLCEval(EvAll(P, e.a, s)) f == e.s[1] IN
         <<IF f = "Add" /\ v[1][1].k = "str" THEN OpValue(AddStr, v[1]) ELSE OpValue(IF f \in RelOps THEN RelOp(f) ELSE IntOp(f), v[1]), v[2]>>
    [] e.k = "un" -> LET v == TLCEval(Ev(P, e.a[1], s)) IN
         <<OpValue("Operator" \o e.s[1] \o (IF e.s[1] = "LogicNot" THEN ";Bool;Bool" ELSE ";Int32;Int32"), <<v[1]>>), v[2]>>
    [] e.k = "cond" -> LET c == TLCEval(Ev(P, e.a[1], s)) IN
         IF c[2].stop # "" THEN c
         ELSE LET v == TLCEval(Ev(P, IF True(c[1]) THEN e.a[2] ELSE e.a[3], c[2])) IN <<IF e.y = <<>> THEN v[1] ELSE Coerce(e.y[1], v[1]), v[2]>>
    [] e.k = "call" -> CallFn(P, e.s[1], s.this, e.a, s)
    [] e.k = "scall" -> CallFn(P, e.s[1], 0, e.a, s)
    [] e.k = "super" -> CallFn(P, e.s[1], s.this, e.a, s)
    [] e.k = "mcall" -> LET o == TLCEval(Ev(P, e.a[1], s)) IN
         IF ~(IsRef(o[1]) /\ o[1].n > 0) THEN <<NoVal, o[2]>>
         ELSE LET c == o[2].heap[o[1].n].c IN CallFn(P, P.meth[c][e.s[1]], o[1].n, Tail(e.a), o[2])
    [] e.k = "new" -> LET t == New(s, Fresh(P, e.s[1])) IN <<RefV(Len(t.heap)), t>>
    [] e.k = "struct" -> LET v == TLCEval(EvAll(P, e.a, s)) fs == FieldsOf(P, e.s[1]) IN
         <<StructV(e.s[1], [m \in DOMAIN fs |-> Coerce(fs[m].y, v[1][m])]), v[2]>>
    [] e.k = "arr" -> LET v == TLCEval(EvAll(P, e.a, s)) IN <<ArrV([m \in DOMAIN v[1] |-> Coerce(e.y[1], v[1][m])]), v[2]>>
    [] e.k = "interp" -> LET v == TLCEval(EvAll(P, e.a, s)) IN
         <<IF \E m \in DOMAIN v[1] : v[1][m].k = "none" THEN NoVal ELSE StrV(TextV(e.s[1]).e \o FlattenSeq([m \in DOMAIN v[1] |-> Printed(v[1][m]) \o TextV(e.s[m + 1]).e])), v[2]>>
    [] e.k = "enum" -> <<EnumV(e.s[1], e.n), s>>
    [] e.k = "as" -> LET v == TLCEval(Ev(P, e.a[1], s)) IN
         <<IF IsRef(v[1]) /\ v[1].n > 0 /\ e.s[1] \in Range(Ancestry(P, v[2].heap[v[1].n].c)) THEN RefV(v[1].n) ELSE RefV(0), v[2]>>
    [] e.k = "fun" /\ e.s[1] \in ArrayOps ->
         LET p == TLCEval(Place(P, e.a[1], s)) v == TLCEval(EvAll(P, Tail(e.a), p[2]))
             r == TLCEval(ArrayFun(e.s[1], ReadAt(v[2], p[1]), IF e.n = 1 THEN [v[1] EXCEPT ![Len(v[1])] = Coerce(e.y[1], @)] ELSE v[1], NoVal)) IN
         IF v[2].stop # "" THEN <<NoVal, v[2]>> ELSE <<r[1], WriteAt(v[2], p[1], r[2])>>
    [] e.k = "fun" -> LET v == TLCEval(EvAll(P, e.a, s)) x == v[1][1] IN
         <<CASE e.s[1] = "Equals" -> BoolV(Same(x, v[1][2]))
             [] e.s[1] = "NotEquals" -> BoolV(~Same(x, v[1][2]))
             [] e.s[1] = "ToString" -> IF x.k = "none" THEN NoVal ELSE StrV(<<PrintedV(Cat(x), x)>>)
             [] e.s[1] = "IsDefined" -> BoolV(IF x.k = "variant" THEN TRUE ELSE x.n > 0)
             [] e.s[1] = "EnumInt" -> IntV(x.n)
             [] e.s[1] = "IntEnum" -> EnumV(e.y[1].n, x.n)
             [] e.s[1] = "ToVariant" -> Val("variant", Cat(x), 0, <<x>>)
             [] e.s[1] = "FromVariant" -> IF x.k = "variant" THEN x.e[1] ELSE NoVal
             [] e.s[1] = "VariantTypeName" -> Lit("TypeName", x.t)
             [] OTHER -> x, v[2]>>

\* a call: arguments from left to right; an omitted one is empty; out parameters are given back in the end
CallFn(P, key, this, args, s) ==
  LET f == P.fns[key]
      Arg(acc, m) ==
        LET q == f.params[m] IN
        IF acc.s.stop # "" THEN acc
        ELSE IF m > Len(args) THEN [acc EXCEPT !.v = Append(@, IF f.native THEN NoVal ELSE Zero(P, q.y)), !.p = Append(@, Nowhere)]
        ELSE IF q.out THEN LET p == TLCEval(Place(P, args[m], acc.s)) IN [s |-> p[2], v |-> Append(acc.v, ReadAt(p[2], p[1])), p |-> Append(acc.p, p[1])]
        ELSE LET v == TLCEval(Ev(P, args[m], acc.s)) IN [s |-> v[2], v |-> Append(acc.v, Coerce(q.y, v[1])), p |-> Append(acc.p, Nowhere)]
      a == TLCEval(FoldLeft(Arg, [s |-> s, v |-> <<>>, p |-> <<>>], [m \in DOMAIN f.params |-> m]))
  IN IF a.s.stop # "" THEN <<NoVal, a.s>>
     ELSE IF f.native THEN Native(f.seen, (IF "this" \in DOMAIN f THEN <<RefV(this)>> ELSE <<>>) \o a.v, a.s)
     ELSE IF a.s.fuel = 0 THEN <<NoVal, Stuck(a.s, "out of fuel")>>
     ELSE LET t == TLCEval(RunBlock(P, f.body, [a.s EXCEPT !.env = [m \in DOMAIN f.params |-> Bound(f.params[m].x, a.v[m], f.params[m].y)],
                                                          !.this = this, !.fuel = @ - 1]))
              \* what the parameters hold in the end: they are the first variables
              back == [t EXCEPT !.env = a.s.env, !.this = a.s.this, !.stop = IF @ = "ret" THEN "" ELSE @, !.ret = NoVal]
              Out(acc, m) == IF f.params[m].out /\ m <= Len(args) THEN WriteAt(acc, a.p[m], t.env[m].v) ELSE acc
          IN <<IF f.ret = <<>> \/ t.stop # "ret" THEN NoVal ELSE Coerce(f.ret[1], t.ret), FoldLeft(Out, back, [m \in DOMAIN f.params |-> m])>>

\* what a block declares is gone when it ends
RunBlock(P, b, s) == LET t == TLCEval(FoldLeft(LAMBDA acc, x : Run(P, x, acc), s, b)) IN [t EXCEPT !.env = SubSeq(@, 1, Len(s.env))]
Broken(s) == IF s.stop = "brk" THEN [s EXCEPT !.stop = ""] ELSE s
Loop(P, c, b, s) == LET v == TLCEval(Ev(P, c, s)) IN
  IF v[2].stop # "" THEN v[2]
  ELSE IF v[2].fuel = 0 THEN Stuck(v[2], "out of fuel")
  ELSE IF True(v[1]) THEN LET t == TLCEval(RunBlock(P, b, [v[2] EXCEPT !.fuel = @ - 1])) IN IF t.stop # "" THEN Broken(t) ELSE Loop(P, c, b, t)
  ELSE v[2]
Each(P, x, vs, b, s) ==
  IF vs = <<>> \/ s.stop # "" THEN Broken(s)
  ELSE IF s.fuel = 0 THEN Stuck(s, "out of fuel")
  ELSE LET t == TLCEval(RunBlock(P, b, [s EXCEPT !.env = Append(@, Bound(x[1], vs[1], x[2])), !.fuel = @ - 1])) IN Each(P, x, Tail(vs), b, [t EXCEPT !.env = SubSeq(@, 1, Len(s.env))])
\* the case that matches, or 0: <<number, state>>
Matches(P, v, ms, n, s) ==
  IF ms = <<>> \/ s.stop # "" THEN <<0, s>>
  ELSE LET m == TLCEval(Ev(P, ms[1], s)) IN IF Same(v, m[1]) THEN <<n, m[2]>> ELSE Matches(P, v, Tail(ms), n + 1, m[2])
Run(P, x, s) ==
  IF s.stop # "" THEN s
  ELSE CASE x.k = "let" -> LET v == TLCEval(IF x.a = <<>> THEN <<Zero(P, x.y[1]), s>> ELSE Ev(P, x.a[1], s)) IN
                           [v[2] EXCEPT !.env = Append(@, Bound(x.s[1], Coerce(x.y[1], v[1]), x.y[1]))]
    [] x.k = "set" -> LET p == TLCEval(Place(P, x.a[1], s)) v == TLCEval(Ev(P, x.a[2], p[2])) IN WriteAt(v[2], p[1], Coerce(x.y[1], v[1]))
    [] x.k = "op" -> LET p == TLCEval(Place(P, x.a[1], s)) o == ReadAt(p[2], p[1]) v == TLCEval(Ev(P, x.a[2], p[2])) IN
                     WriteAt(v[2], p[1], OpValue("Operator" \o x.s[1] \o ";OutInt32Int32;Int32", <<o, v[1]>>))
    [] x.k = "do" -> Ev(P, x.a[1], s)[2]
    [] x.k = "return" -> LET v == TLCEval(IF x.a = <<>> THEN <<NoVal, s>> ELSE Ev(P, x.a[1], s)) IN IF v[2].stop # "" THEN v[2] ELSE [v[2] EXCEPT !.stop = "ret", !.ret = v[1]]
    [] x.k = "break" -> [s EXCEPT !.stop = "brk"]
    [] x.k = "if" -> LET c == TLCEval(Ev(P, x.a[1], s)) IN
         IF c[2].stop # "" THEN c[2] ELSE IF True(c[1]) THEN RunBlock(P, x.b[1], c[2]) ELSE IF Len(x.b) = 2 THEN RunBlock(P, x.b[2], c[2]) ELSE c[2]
    [] x.k = "while" -> Loop(P, x.a[1], x.b[1], s)
    \* the array is the one there was at the start
    [] x.k = "for" -> LET v == TLCEval(Ev(P, x.a[1], s)) IN Each(P, <<x.s[1], x.y[1]>>, v[1].e, x.b[1], v[2])
    \* the first case that matches, and every body after it until a break
    [] x.k = "switch" -> LET v == TLCEval(Ev(P, x.a[1], s)) m == TLCEval(Matches(P, v[1], Tail(x.a), 1, v[2]))
                             from == IF m[1] > 0 THEN m[1] ELSE IF x.n = 1 THEN Len(x.b) ELSE Len(x.b) + 1 IN
         Broken(FoldLeft(LAMBDA acc, b : RunBlock(P, b, acc), m[2], SubSeq(x.b, from, Len(x.b))))
=============================================================================
