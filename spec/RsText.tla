------------------------------- MODULE RsText -------------------------------
(***************************************************************************)
(* The language as text: the grammar of redscript sources (the one of      *)
(* compiler/src/parser.rs), over tokens [t, v]:                            *)
(*   id, p (punctuation), I32 .. F64 (numbers, v canonical), BigI32/BigI64 *)
(*   (2147483648 and 9223372036854775808, which only fit with a minus),    *)
(*   Str, Name, Res, Tweak (v: the unescaped contents), bad                *)
(* and the tree that a printed tree must read back as.                     *)
(*                                                                         *)
(* Operators from loosest to tightest:                                     *)
(*   0  ?:  =  += -= *= /= |= &=   (to the right)                          *)
(*   1 ||  2 &&  3 |  4 ^  5 &  6 == !=  7 < <= > >=  8 + -  9 * / %       *)
(*   10 ! ~ - new   11 [] . as     (all others to the left)                *)
(***************************************************************************)
EXTENDS RsLang

Infix == ("||" :> [o |-> "OperatorLogicOr", l |-> 1]) @@ ("&&" :> [o |-> "OperatorLogicAnd", l |-> 2]) @@ ("|" :> [o |-> "OperatorOr", l |-> 3])
      @@ ("^" :> [o |-> "OperatorXor", l |-> 4]) @@ ("&" :> [o |-> "OperatorAnd", l |-> 5]) @@ ("==" :> [o |-> "OperatorEqual", l |-> 6])
      @@ ("!=" :> [o |-> "OperatorNotEqual", l |-> 6]) @@ ("<" :> [o |-> "OperatorLess", l |-> 7]) @@ ("<=" :> [o |-> "OperatorLessEqual", l |-> 7])
      @@ (">" :> [o |-> "OperatorGreater", l |-> 7]) @@ (">=" :> [o |-> "OperatorGreaterEqual", l |-> 7]) @@ ("+" :> [o |-> "OperatorAdd", l |-> 8])
      @@ ("-" :> [o |-> "OperatorSubtract", l |-> 8]) @@ ("*" :> [o |-> "OperatorMultiply", l |-> 9]) @@ ("/" :> [o |-> "OperatorDivide", l |-> 9])
      @@ ("%" :> [o |-> "OperatorModulo", l |-> 9])
AssignOps == ("+=" :> "OperatorAssignAdd") @@ ("-=" :> "OperatorAssignSubtract") @@ ("*=" :> "OperatorAssignMultiply") @@ ("/=" :> "OperatorAssignDivide")
          @@ ("|=" :> "OperatorAssignOr") @@ ("&=" :> "OperatorAssignAnd")
Prefix == ("!" :> "OperatorLogicNot") @@ ("~" :> "OperatorBitNot") @@ ("-" :> "OperatorNeg")

\* ---------------------------------------------------------------- the tree a reader gets, up to what does not matter
\* as the decompiler's trees name the variants of BinOp and UnOp when they are not calls
BinSet == {BinNames[n] : n \in DOMAIN BinNames}
UnSet == {UnNames[n] : n \in DOMAIN UnNames}
\* regrouping a chain of one of these changes nothing
Associative == {"OperatorLogicOr", "OperatorLogicAnd", "OperatorOr", "OperatorXor", "OperatorAnd", "OperatorAdd", "OperatorMultiply"}
Bin(o, x, y) ==
  IF o \in Associative
  THEN LET part(z) == IF z.t = "Chain" /\ z.s = <<o>> THEN z.k ELSE <<z>> IN Nd("Chain", <<o>>, part(x) \o part(y))
  ELSE Nd("BinOp", <<o>>, <<x, y>>)
\* -5 is minus 5
Negative(v) == Len(v) > 0 /\ SubSeq(v, 1, 1) = "-"
Num(t, v) == IF Negative(v) THEN Nd("UnOp", <<"OperatorNeg">>, <<Nd(t, <<SubSeq(v, 2, Len(v))>>, <<>>)>>) ELSE Nd(t, <<v>>, <<>>)
Numeric == {"I32", "I64", "U32", "U64", "F32", "F64"}

\* function names show without their signature
RECURSIVE CutAt(_, _)
CutAt(s, n) == IF n > Len(s) THEN s ELSE IF SubSeq(s, n, n) = ";" THEN SubSeq(s, 1, n - 1) ELSE CutAt(s, n + 1)
KnownNames == {DefTable[n].name : n \in DOMAIN DefTable}
ShortTable == [x \in KnownNames |-> CutAt(x, 1)]
Short(x) == IF x \in KnownNames THEN ShortTable[x] ELSE CutAt(x, 1)
\* conversions that only show on request
Hidden == {"WeakRefToRef", "RefToWeakRef", "AsRef"}
RECURSIVE IsBlank(_)
IsBlank(x) == x.t = "Seq" /\ \A n \in DOMAIN x.k : IsBlank(x.k[n])
RECURSIVE Plain(_, _)
Plain(x, verbose) ==
  LET K == TLCEval([n \in DOMAIN x.k |-> Plain(x.k[n], verbose)])
      f == IF x.t = "Call" THEN Short(x.s[1]) ELSE ""
  IN CASE x.t \in Numeric -> Num(x.t, x.s[1])
       [] x.t = "Seq" -> Nd("Seq", <<>>, SelectSeq(K, LAMBDA y : ~IsBlank(y)))
       [] x.t = "Call" /\ f \in BinSet /\ Len(K) = 2 -> Bin(f, K[1], K[2])
       [] x.t = "Call" /\ f \in UnSet /\ Len(K) = 1 -> Nd("UnOp", <<f>>, K)
       [] x.t = "Call" /\ f \in Hidden /\ ~verbose -> K[1]
       [] x.t = "Call" -> Nd("Call", <<f>> \o Tail(x.s), K)
       [] x.t = "Method" -> Nd("Method", <<Short(x.s[1])>>, K)
       [] x.t = "BinOp" -> Bin(x.s[1], K[1], K[2])
       [] OTHER -> Nd(x.t, x.s, K)
\* an operator has its number of operands, and is not a method
RECURSIVE Sound(_)
Sound(x) == LET f == IF x.t \in {"Call", "Method"} THEN Short(x.s[1]) ELSE "" IN
            /\ x.t = "Call" => (f \in BinSet => Len(x.k) = 2) /\ (f \in UnSet \cup Hidden => Len(x.k) = 1)
            /\ x.t = "Method" => f \notin BinSet \cup UnSet \cup Hidden
            /\ \A n \in DOMAIN x.k : Sound(x.k[n])
PlainSeq(xs, verbose) == Plain(Nd("Seq", <<>>, xs), verbose)

\* ---------------------------------------------------------------- reading
Eof == [t |-> "eof", v |-> ""]
Tk(T, p) == IF p <= Len(T) THEN T[p] ELSE Eof
IsP(T, p, v) == Tk(T, p).t = "p" /\ Tk(T, p).v = v
IsK(T, p, v) == Tk(T, p).t = "id" /\ Tk(T, p).v = v
IsId(T, p) == Tk(T, p).t = "id"
Got(x, p) == [ok |-> TRUE, x |-> x, p |-> p]
Bad(p) == [ok |-> FALSE, x |-> EmptyNode, p |-> p]

\* a type is given as the pool spells it: the parts, separated by colons; the length of an array of fixed length after a semicolon
RECURSIVE RType(_, _), RTypeArgs(_, _, _)
RTypeArgs(T, p, acc) ==
  LET a == TLCEval(RType(T, p)) IN
  IF ~a.ok THEN a
  ELSE IF IsP(T, a.p, ",") THEN RTypeArgs(T, a.p + 1, Append(acc, a.x))
  ELSE IF IsP(T, a.p, ">") THEN Got(Append(acc, a.x), a.p + 1) ELSE Bad(a.p)
RECURSIVE Colons(_)
Colons(ts) == IF ts = <<>> THEN "" ELSE ":" \o Head(ts) \o Colons(Tail(ts))
RType(T, p) ==
  IF ~IsId(T, p) THEN Bad(p)
  ELSE IF IsP(T, p + 1, "<")
    THEN LET a == TLCEval(RTypeArgs(T, p + 2, <<>>))
             one == TLCEval(IF a.ok THEN a ELSE RType(T, p + 2))
             sized == one.ok /\ IsP(T, one.p, ";") /\ Tk(T, one.p + 1).t \in {"I32", "BigI32", "Wide"} /\ IsP(T, one.p + 2, ">")
         IN IF a.ok THEN Got(Tk(T, p).v \o Colons(a.x), a.p)
            ELSE IF sized THEN Got(Tk(T, p).v \o ":" \o one.x \o ";" \o Tk(T, one.p + 1).v, one.p + 3)
            ELSE Got(Tk(T, p).v, p + 1)
    ELSE Got(Tk(T, p).v, p + 1)

RECURSIVE RExpr(_, _, _), RAtom(_, _), RLoop(_, _, _, _), RArgs(_, _, _)
\* arguments up to the closing parenthesis
RArgs(T, p, acc) ==
  IF acc = <<>> /\ IsP(T, p, ")") THEN Got(<<>>, p + 1)
  ELSE LET a == TLCEval(RExpr(T, p, 0)) IN
       IF ~a.ok THEN a
       ELSE IF IsP(T, a.p, ",") THEN RArgs(T, a.p + 1, Append(acc, a.x))
       ELSE IF IsP(T, a.p, ")") THEN Got(Append(acc, a.x), a.p + 1) ELSE Bad(a.p)
RExpr(T, p, min) == LET a == TLCEval(RAtom(T, p)) IN IF a.ok THEN RLoop(T, a.x, a.p, min) ELSE a
RAtom(T, p) ==
  LET tk == Tk(T, p) IN
  CASE tk.t = "p" /\ tk.v = "-" /\ Tk(T, p + 1).t \in {"BigI32", "BigI64"} ->
         Got(Num(IF Tk(T, p + 1).t = "BigI32" THEN "I32" ELSE "I64", "-" \o Tk(T, p + 1).v), p + 2)
    [] tk.t = "p" /\ tk.v \in DOMAIN Prefix ->
         LET a == TLCEval(RExpr(T, p + 1, 10)) IN IF a.ok THEN Got(Nd("UnOp", <<Prefix[tk.v]>>, <<a.x>>), a.p) ELSE a
    [] tk.t = "p" /\ tk.v = "(" ->
         LET a == TLCEval(RExpr(T, p + 1, 0)) IN IF a.ok /\ IsP(T, a.p, ")") THEN Got(a.x, a.p + 1) ELSE Bad(a.p)
    [] tk.t = "id" /\ tk.v = "new" /\ IsId(T, p + 1) /\ IsP(T, p + 2, "(") ->
         LET a == TLCEval(RArgs(T, p + 3, <<>>)) IN IF a.ok THEN Got(Nd("New", <<Tk(T, p + 1).v>>, a.x), a.p) ELSE a
    [] tk.t = "id" /\ tk.v \in {"null", "this", "super"} ->
         Got(CASE tk.v = "null" -> Leaf("Null") [] tk.v = "this" -> This [] OTHER -> Super, p + 1)
    [] tk.t = "id" /\ tk.v \in {"true", "false"} -> Got(Nd("Bool", <<tk.v>>, <<>>), p + 1)
    [] tk.t \in Numeric \cup {"Str", "Name", "Res", "Tweak"} -> Got(Nd(tk.t, <<tk.v>>, <<>>), p + 1)
    [] tk.t = "id" ->
         LET ty == TLCEval(IF IsP(T, p + 1, "<") THEN RTypeArgs(T, p + 2, <<>>) ELSE Bad(p))
             open == IF ty.ok THEN ty.p ELSE p + 1
         IN IF IsP(T, open, "(")
            THEN LET a == TLCEval(RArgs(T, open + 1, <<>>)) IN
                 IF a.ok THEN Got(Nd("Call", <<tk.v>> \o (IF ty.ok THEN ty.x ELSE <<>>), a.x), a.p) ELSE Got(Ident(tk.v), p + 1)
            ELSE Got(Ident(tk.v), p + 1)
    [] OTHER -> Bad(p)
\* x has been read, up to p: what can follow it at this level
RLoop(T, x, p, min) ==
  LET tk == Tk(T, p) IN
  CASE tk.t = "p" /\ tk.v = "?" /\ min = 0 ->
         LET y == TLCEval(RExpr(T, p + 1, 0))
             z == TLCEval(IF y.ok /\ IsP(T, y.p, ":") THEN RExpr(T, y.p + 1, 0) ELSE Bad(p))
         IN IF z.ok THEN RLoop(T, Nd("Cond", <<>>, <<x, y.x, z.x>>), z.p, min) ELSE Got(x, p)
    [] tk.t = "p" /\ tk.v = "=" /\ min = 0 ->
         LET y == TLCEval(RExpr(T, p + 1, 0)) IN IF y.ok THEN RLoop(T, Nd("Assign", <<>>, <<x, y.x>>), y.p, min) ELSE Got(x, p)
    [] tk.t = "p" /\ tk.v \in DOMAIN AssignOps /\ min = 0 ->
         LET y == TLCEval(RExpr(T, p + 1, 0)) IN IF y.ok THEN RLoop(T, Bin(AssignOps[tk.v], x, y.x), y.p, min) ELSE Got(x, p)
    [] tk.t = "p" /\ tk.v \in DOMAIN Infix /\ Infix[tk.v].l >= min ->
         LET y == TLCEval(RExpr(T, p + 1, Infix[tk.v].l + 1)) IN IF y.ok THEN RLoop(T, Bin(Infix[tk.v].o, x, y.x), y.p, min) ELSE Got(x, p)
    [] tk.t = "p" /\ tk.v = "[" ->
         LET y == TLCEval(RExpr(T, p + 1, 0)) IN IF y.ok /\ IsP(T, y.p, "]") THEN RLoop(T, Nd("Elem", <<>>, <<x, y.x>>), y.p + 1, min) ELSE Got(x, p)
    [] tk.t = "p" /\ tk.v = "." /\ IsId(T, p + 1) ->
         LET a == TLCEval(IF IsP(T, p + 2, "(") THEN RArgs(T, p + 3, <<>>) ELSE Bad(p)) IN
         IF a.ok THEN RLoop(T, Nd("Method", <<Tk(T, p + 1).v>>, <<x>> \o a.x), a.p, min)
         ELSE RLoop(T, Nd("Member", <<Tk(T, p + 1).v>>, <<x>>), p + 2, min)
    [] tk.t = "id" /\ tk.v = "as" ->
         LET y == TLCEval(RType(T, p + 1)) IN IF y.ok THEN RLoop(T, Nd("Cast", <<y.x>>, <<x>>), y.p, min) ELSE Got(x, p)
    [] OTHER -> Got(x, p)

\* ---------------------------------------------------------------- statements
Semi(T, p) == IF IsP(T, p, ";") THEN p + 1 ELSE p
Then(a, f(_)) == IF a.ok THEN f(a) ELSE a
RECURSIVE RStmt(_, _), RSeq(_, _, _), RBlock(_, _), RCases(_, _, _), RElse(_, _)
\* as many statements as there are; never fails
RSeq(T, p, acc) == LET a == TLCEval(RStmt(T, p)) IN IF a.ok THEN RSeq(T, a.p, Append(acc, a.x)) ELSE Got(Nd("Seq", <<>>, acc), p)
RBlock(T, p) == IF ~IsP(T, p, "{") THEN Bad(p)
                ELSE LET b == TLCEval(RSeq(T, p + 1, <<>>)) IN IF IsP(T, b.p, "}") THEN Got(b.x, b.p + 1) ELSE Bad(b.p)
RCases(T, p, acc) ==
  IF IsK(T, p, "case")
  THEN LET m == TLCEval(RExpr(T, p + 1, 0)) IN
       IF m.ok /\ IsP(T, m.p, ":")
       THEN LET b == TLCEval(RSeq(T, m.p + 1, <<>>)) IN RCases(T, b.p, Append(acc, Nd("Case", <<>>, <<m.x, b.x>>)))
       ELSE Bad(p)
  ELSE IF IsK(T, p, "default") /\ IsP(T, p + 1, ":")
  THEN LET b == TLCEval(RSeq(T, p + 2, <<>>)) IN Got(Append(acc, Nd("Default", <<>>, <<b.x>>)), b.p)
  ELSE Got(acc, p)
RElse(T, p) == IF IsK(T, p, "if") THEN LET a == TLCEval(RStmt(T, p)) IN IF a.ok THEN Got(Nd("Seq", <<>>, <<a.x>>), a.p) ELSE a
               ELSE RBlock(T, p)
RStmt(T, p) ==
  LET tk == Tk(T, p) IN
  IF tk.t # "id"
  THEN LET a == TLCEval(RExpr(T, p, 0)) IN IF a.ok /\ IsP(T, a.p, ";") THEN Got(a.x, a.p + 1) ELSE Bad(p)
  ELSE CASE tk.v = "while" ->
              LET a == TLCEval(RExpr(T, p + 1, 0)) b == TLCEval(IF a.ok THEN RBlock(T, a.p) ELSE a) IN
              IF b.ok THEN Got(Nd("While", <<>>, <<a.x, b.x>>), Semi(T, b.p)) ELSE b
         [] tk.v = "if" ->
              LET a == TLCEval(RExpr(T, p + 1, 0)) b == TLCEval(IF a.ok THEN RBlock(T, a.p) ELSE a) IN
              IF ~b.ok THEN b
              ELSE IF IsK(T, b.p, "else")
                THEN LET e == TLCEval(RElse(T, b.p + 1)) IN IF e.ok THEN Got(Nd("If", <<>>, <<a.x, b.x, e.x>>), Semi(T, e.p)) ELSE e
                ELSE Got(Nd("If", <<>>, <<a.x, b.x>>), Semi(T, b.p))
         [] tk.v = "switch" ->
              LET a == TLCEval(RExpr(T, p + 1, 0)) IN
              IF ~a.ok \/ ~IsP(T, a.p, "{") THEN Bad(p)
              ELSE LET cs == TLCEval(RCases(T, a.p + 1, <<>>)) IN
                   IF cs.ok /\ IsP(T, cs.p, "}") THEN Got(Nd("Switch", <<>>, <<a.x>> \o cs.x), Semi(T, cs.p + 1)) ELSE Bad(p)
         [] tk.v = "return" ->
              IF IsP(T, p + 1, ";") THEN Got(Nd("Return", <<>>, <<>>), p + 2)
              ELSE LET a == TLCEval(RExpr(T, p + 1, 0)) IN IF a.ok /\ IsP(T, a.p, ";") THEN Got(Nd("Return", <<>>, <<a.x>>), a.p + 1) ELSE Bad(p)
         [] tk.v = "break" -> IF IsP(T, p + 1, ";") THEN Got(Leaf("Break"), p + 2) ELSE Bad(p)
         [] tk.v = "let" ->
              LET ty == TLCEval(IF IsP(T, p + 2, ":") THEN RType(T, p + 3) ELSE Bad(p))
                  q == IF ty.ok THEN ty.p ELSE p + 2
                  v == TLCEval(IF IsP(T, q, "=") THEN RExpr(T, q + 1, 0) ELSE Bad(q))
                  e == IF v.ok THEN v.p ELSE q
              IN IF IsId(T, p + 1) /\ IsP(T, e, ";")
                 THEN Got(Nd("Declare", <<Tk(T, p + 1).v>> \o (IF ty.ok THEN <<ty.x>> ELSE <<>>), IF v.ok THEN <<v.x>> ELSE <<>>), e + 1)
                 ELSE Bad(p)
         [] OTHER -> LET a == TLCEval(RExpr(T, p, 0)) IN IF a.ok /\ IsP(T, a.p, ";") THEN Got(a.x, a.p + 1) ELSE Bad(p)

\* ---------------------------------------------------------------- declarations
DeclWords == {"func", "class", "struct", "let", "enum"}
RECURSIVE RWords(_, _, _)
\* the words before the name
RWords(T, p, acc) == IF ~IsId(T, p) THEN Bad(p) ELSE IF Tk(T, p).v \in DeclWords THEN Got(acc, p) ELSE RWords(T, p + 1, Append(acc, Tk(T, p).v))
RECURSIVE RParams(_, _, _), RParamWords(_, _, _)
RParamWords(T, p, acc) == IF IsP(T, p + 1, ":") THEN Got(acc, p) ELSE IF IsId(T, p) THEN RParamWords(T, p + 1, Append(acc, Tk(T, p).v)) ELSE Bad(p)
RParams(T, p, acc) ==
  IF acc = <<>> /\ IsP(T, p, ")") THEN Got(<<>>, p + 1)
  ELSE LET w == TLCEval(RParamWords(T, p, <<>>))
           ty == TLCEval(IF w.ok THEN RType(T, w.p + 2) ELSE w)
       IN IF ~ty.ok THEN ty
          ELSE LET all == Append(acc, [words |-> w.x, name |-> Tk(T, w.p).v, type |-> ty.x]) IN
               IF IsP(T, ty.p, ",") THEN RParams(T, ty.p + 1, all) ELSE IF IsP(T, ty.p, ")") THEN Got(all, ty.p + 1) ELSE Bad(ty.p)
\* words func name(params) -> type { body }   or   ... ;
RFunction(T, p) ==
  LET w == TLCEval(RWords(T, p, <<>>))
      ps == TLCEval(IF w.ok /\ IsK(T, w.p, "func") /\ IsId(T, w.p + 1) /\ IsP(T, w.p + 2, "(") THEN RParams(T, w.p + 3, <<>>) ELSE Bad(p))
      ty == TLCEval(IF ps.ok /\ IsP(T, ps.p, "->") THEN RType(T, ps.p + 1) ELSE Bad(p))
      b == TLCEval(IF ty.ok THEN RBlock(T, ty.p) ELSE ty)
  IN IF ~ty.ok THEN ty
     ELSE Got([k |-> "Function", words |-> w.x, name |-> Tk(T, w.p + 1).v, params |-> ps.x, ret |-> ty.x, body |-> IF b.ok THEN <<b.x>> ELSE <<>>],
              IF b.ok THEN Semi(T, b.p) ELSE Semi(T, ty.p))
\* the whole text is one function
ReadFunction(T) == LET f == TLCEval(RFunction(T, 1)) IN IF f.ok /\ f.p = Len(T) + 1 THEN f ELSE Bad(f.p)

\* ---------------------------------------------------------------- indentation: two spaces for every brace and every case a line is inside of
\* L: the lines [at, ind]: the index of its first token, its indentation
RECURSIVE Depths(_, _, _, _, _)
\* stack: for every open brace, [sw: is it a switch's, in: has a case started]; pend: a switch is being read
Depth(stack) == Len(stack) + Cardinality({n \in DOMAIN stack : stack[n].sw /\ stack[n].in})
Depths(T, p, stack, pend, acc) ==
  IF p > Len(T) THEN acc
  ELSE LET top == IF stack = <<>> THEN [sw |-> FALSE, in |-> FALSE] ELSE stack[Len(stack)]
           label == top.sw /\ (IsK(T, p, "case") \/ (IsK(T, p, "default") /\ IsP(T, p + 1, ":")))
           here == IF IsP(T, p, "}") THEN SubSeq(stack, 1, Len(stack) - 1)
                   ELSE IF label THEN [stack EXCEPT ![Len(stack)].in = FALSE] ELSE stack
           next == IF IsP(T, p, "{") THEN Append(stack, [sw |-> pend, in |-> FALSE])
                   ELSE IF IsP(T, p, "}") THEN here
                   ELSE IF label THEN [stack EXCEPT ![Len(stack)].in = TRUE] ELSE stack
       IN Depths(T, p + 1, next, IF IsK(T, p, "switch") THEN TRUE ELSE IF IsP(T, p, "{") THEN FALSE ELSE pend, Append(acc, Depth(here)))
Indented(T, L) == LET d == TLCEval(Depths(T, 1, <<>>, FALSE, <<>>)) IN \A n \in DOMAIN L : L[n].ind = 2 * d[L[n].at]
\* statements and labels start lines: whatever follows ; or { (other than a closing brace's semicolon) does
Broken(T, L) == LET starts == {L[n].at : n \in DOMAIN L} IN
                \A p \in 2..Len(T) : ((IsP(T, p - 1, ";") /\ ~IsP(T, p + 1, ">")) \/ IsP(T, p - 1, "{") \/ IsK(T, p, "case") \/ IsP(T, p, "}")) => p \in starts
=============================================================================
