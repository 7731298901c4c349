------------------------------- MODULE GenDefs ------------------------------
(***************************************************************************)
(* Files of declarations at random, in modules that import from each       *)
(* other, compiled at once or in two runs; and every declaration by itself *)
(* under every choice of qualifiers.                                       *)
(***************************************************************************)
EXTENDS RsDefs, Json
CONSTANT Rounds
VARIABLE theCase

R(S) == TLCEval(RandomElement(S))
Chance(n, of) == R(1..of) <= n
Id(x, n) == x \o ToString(n)
RECURSIVE Mix(_)
Mix(s) == IF s = <<>> THEN <<>> ELSE LET n == R(DOMAIN s) IN <<s[n]>> \o Mix(RemoveAt(s, n))
Some(S) == Mix(SetToSeq({x \in S : R(1..2) = 1}))
Few(S) == Mix(SetToSeq({x \in S : R(1..4) = 1}))
\* every draw happens here, once
Draw(n, Op(_)) == LET f[m \in 0..n] == IF m = 0 THEN <<>> ELSE LET x == TLCEval(Op(m)) IN Append(f[m - 1], x) IN TLCEval(f[n])

\* ---------------------------------------------------------------- constants
\* text, and what the bundle keeps of it
Con(toks, means) == [toks |-> toks, means |-> means]
Consts == ("Int32" :> <<Con(<<"5">>, "5"), Con(<<"-7">>, "-7"), Con(<<"0012">>, "12")>>) @@ ("Float" :> <<Con(<<"2.5">>, "2.5"), Con(<<"3.0">>, "3"), Con(<<"-.25">>, "-0.25")>>)
       @@ ("Bool" :> <<Con(<<"true">>, "true"), Con(<<"false">>, "false")>>) @@ ("String" :> <<Con(<<"\"a b\"">>, "a b"), Con(<<"\"\"">>, "")>>)
       @@ ("CName" :> <<Con(<<"n\"x.y\"">>, "x.y")>>) @@ ("TweakDBID" :> <<Con(<<"t\"Items.q\"">>, "Items.q")>>) @@ ("Uint32" :> <<Con(<<"7u">>, "7")>>) @@ ("Int64" :> <<Con(<<"11l">>, "11"), Con(<<"-8l">>, "-8")>>)
       @@ ("Uint64" :> <<Con(<<"9ul">>, "9")>>) @@ ("Double" :> <<Con(<<"1.5d">>, "1.5")>>)
Prims == <<"Int32", "Bool", "String", "CName", "Float", "TweakDBID", "Uint32", "Int64", "Uint64", "Double">>
\* ---------------------------------------------------------------- the declarations there will be
Mods == << <<>>, <<"M">>, <<"M", "N">>, <<"K">> >>
RECURSIVE Cond(_)
Cond(d) == IF d = 0 \/ Chance(1, 3) THEN (IF Chance(1, 2) THEN [k |-> "lit", v |-> Chance(2, 3)] ELSE [k |-> "exists", mod |-> R({<<"M">>, <<"M", "N">>, <<"K">>, <<"N">>, <<"M", "N", "N">>})])
           ELSE LET o == R({"not", "and", "or", "if"}) a == TLCEval(Cond(d - 1)) b == TLCEval(Cond(d - 1)) c == TLCEval(Cond(d - 1)) IN
                CASE o = "not" -> [k |-> o, a |-> a] [] o = "if" -> [k |-> o, a |-> a, b |-> b, c |-> c] [] OTHER -> [k |-> o, a |-> a, b |-> b]
Conds(x) == LET n == R({0, 0, 0, 0, 1, 1, 2}) IN Draw(n, LAMBDA m : Cond(2))
Vises == {"public", "public", "protected", "private", ""}
FileOf(n, two) == [n |-> n, mod |-> IF two /\ n = 1 /\ Chance(1, 2) THEN <<>> ELSE R(Range(Mods)), stage |-> IF two /\ n = 1 THEN 1 ELSE IF two THEN 2 ELSE 1]
\* functions named alike take different things
FnName(n) == R({"F", "G", "F", "G", "OperatorAdd", "OperatorAssignAdd", "Cast"} \ (IF R(1..3) = 1 THEN {} ELSE {"OperatorAdd", "OperatorAssignAdd", "Cast"}))
Callable(V) == {e \in V : e.k = "func" /\ e.name \in {"F", "G"}}
EnumValues(n) == Mix(<< <<"P", R({"0", "1", "-1"})>>, <<"Q", R({"7", "-128"})>>, <<"R", R({"2147483647", "-2147483648", "4294967296l"})>> >>)
Ent(n, files) == LET k == R({"class", "struct", "enum", "func", "let", "add"}) f == R(DOMAIN files) IN
  [n |-> n, k |-> k, file |-> f, mod |-> files[f].mod, stage |-> files[f].stage, vis |-> R({"public", "protected", "private", ""} \cup (IF Chance(1, 2) THEN {"public"} ELSE {})),
   conds |-> Conds(n), name |-> CASE k = "class" -> Id("C", n) [] k = "struct" -> Id("S", n) [] k = "enum" -> Id("E", n) [] k = "func" -> FnName(n) [] OTHER -> Id(k, n),
   arg |-> Prims[n], values |-> EnumValues(n), quals |-> CASE k = "class" -> Few({"abstract", "final", "native", "importonly"}) [] k = "struct" -> Few({"native", "final", "importonly"})
                                 [] k = "func" -> Few({"final", "const", "quest", "static"}) [] OTHER -> <<>>]
\* ---------------------------------------------------------------- imports
Import(f, known, n) ==
  LET there == {e \in known : e.mod # <<>> /\ e.mod # f.mod}
      e == R(there)
      k == R({"one", "one", "some", "all"})
      more == {x.name : x \in {x \in there : x.mod = e.mod /\ R(1..2) = 1}} \ {e.name}
  IN [k |-> k, mod |-> e.mod, names |-> IF k = "one" THEN <<e.name>> ELSE IF k = "some" THEN <<e.name>> \o SetToSeq(more) ELSE <<>>, conds |-> IF Chance(1, 5) THEN <<[k |-> "lit", v |-> Chance(1, 2)]>> ELSE <<>>]
Imports(f, known) == IF {e \in known : e.mod # <<>> /\ e.mod # f.mod} = {} THEN <<>> ELSE LET n == R(0..4) IN Draw(n, LAMBDA m : Import(f, known, m))

\* ---------------------------------------------------------------- drawing the rest; V: what is visible where it is written
Named(V, ks) == {e \in V : e.k \in ks}
RECURSIVE AnyType(_, _)
AnyType(V, d) ==
  LET o == R(1..8) IN
  IF o <= 3 \/ d = 0 THEN Ty(R(Range(Prims)))
  ELSE IF o <= 5 /\ Named(V, {"class"}) # {} THEN Of(R({"ref", "wref"}), Ty(R(Named(V, {"class"})).name))
  ELSE IF o = 6 /\ Named(V, {"struct", "enum"}) # {} THEN Ty(R(Named(V, {"struct", "enum"})).name)
  ELSE Of("array", TLCEval(AnyType(V, d - 1)))
\* what may be kept in a save
RECURSIVE Keeps(_)
Keeps(t) == t.name \notin {"String", "Variant", "ResRef"} /\ \A n \in DOMAIN t.args : Keeps(t.args[n])
Means(t, n) == t \o " " \o Consts[t][n].means
LastUse(ret) == IF ret = <<>> THEN <<>> ELSE <<Means(ret[1].name, 1)>>
Body(V, ents) ==
  LET one(m) == LET o == R(1..6) IN
        IF o <= 2 /\ Callable(V) # {} THEN LET e == R(Callable(V)) IN [toks |-> <<e.name, "~", "(">> \o Consts[e.arg][1].toks \o <<")", ";">>, local |-> <<>>, use |-> <<"call " \o Path(e.mod, Signature(ents[e.n].fn)), Means(e.arg, 1)>>]
        ELSE IF o = 3 /\ {e \in Named(V, {"class"}) : "abstract" \notin Range(e.quals)} # {}
             THEN LET e == R({e \in Named(V, {"class"}) : "abstract" \notin Range(e.quals)}) IN [toks |-> <<"new", e.name, "~", "(", ")", ";">>, local |-> <<>>, use |-> <<"new " \o Full(e)>>]
        ELSE IF o = 4 /\ Named(V, {"enum"}) # {} THEN LET e == R(Named(V, {"enum"})) IN [toks |-> <<"let", Id("v", m), "=", e.name, "~", ".", "~", "P", ";">>, local |-> << [name |-> Id("v", m), type |-> Ty(e.name)] >>,
                                                                                       use |-> <<"enum " \o Full(e) \o " P">>]
        ELSE LET t == TLCEval(AnyType(V, 2)) IN [toks |-> <<"let", Id("v", m), ":">> \o <<Pretty(t)>> \o <<";">>, local |-> << [name |-> Id("v", m), type |-> t] >>, use |-> Starts(t, V)]
      n == R(0..3)
      bs == Draw(n, one)
  IN [lines |-> [m \in DOMAIN bs |-> bs[m].toks], locals |-> FlattenSeq([m \in DOMAIN bs |-> bs[m].local]), uses |-> FlattenSeq([m \in DOMAIN bs |-> bs[m].use])]
NoBody == [lines |-> <<>>, locals |-> <<>>, uses |-> <<>>]
ParQuals(quals) == Mix(SetToSeq(quals))
Param(x, t, quals) == [name |-> x, type |-> t, quals |-> ParQuals(quals)]
\* the signature of a function of the module: what it is called with, and more that is optional
TopFn(e) == [name |-> e.name, mod |-> e.mod, quals |-> e.quals, ret |-> IF Chance(1, 2) THEN <<>> ELSE <<Ty(R({"Int32", "String", "Bool"}))>>, body |-> <<>>, last |-> <<>>,
             params |-> <<Param("a", Ty(e.arg), IF e.name = "OperatorAssignAdd" THEN {"out"} ELSE IF Chance(1, 3) THEN {"const"} ELSE {})>>
                        \o (IF e.name \in {"OperatorAdd", "OperatorAssignAdd"} THEN <<Param("b", Of("array", Ty(e.arg)), {})>> ELSE IF Chance(1, 3) THEN <<Param("b", Of("array", Ty("Int32")), {"opt"} \cup (IF Chance(1, 3) THEN {"const"} ELSE {}))>> ELSE <<>>)]
Returns(ret) == IF ret = <<>> THEN <<>> ELSE << <<"return">> \o Consts[ret[1].name][1].toks \o <<";">> >>
\* methods and fields
Method(m, e, V, ents) ==
  LET cls == e.k = "class"
      native == {"native", "importonly"} \cap Range(e.quals) # {} /\ Chance(1, 2)
      quals == Few({"final", "const", "quest", "exec", "cb"}) \o (IF native THEN <<"native">> ELSE <<>>) \o (IF ~cls \/ Chance(1, 4) THEN <<"static">> ELSE <<>>)
      ret == IF Chance(1, 2) THEN <<>> ELSE <<Ty(R({"Int32", "String", "Bool"}))>>
      n == R(0..3)
      hollow == native \/ (cls /\ "abstract" \in Range(e.quals) /\ Chance(1, 2))
      b == TLCEval(Body(V, ents))
  IN [k |-> "method", name |-> Id("m", m), mod |-> <<>>, quals |-> quals, ret |-> ret, params |-> Draw(n, LAMBDA x : Param(Id("p", x), AnyType(V, 3), {q \in {"opt", "out", "const"} : R(1..3) = 1})),
      body |-> IF hollow THEN <<>> ELSE <<b>>, last |-> LastUse(ret), conds |-> IF Chance(1, 5) THEN <<Cond(1)>> ELSE <<>>]
Attrs(x) == LET n == R({0, 0, 1, 2}) IN Draw(n, LAMBDA m : << R({"ModSettings.mod", "key", ""}), R({"My Mod", "1", "a.b"}) >>)
Field(m, e, V) ==
  LET t == TLCEval(AnyType(V, 3))
      value == IF t.args = <<>> /\ t.name \in DOMAIN Consts THEN <<R(Range(Consts[t.name]))>>
               ELSE IF t.name \in {"ref", "wref"} THEN <<Con(<<"null">>, "null")>>
               ELSE IF \E x \in Named(V, {"enum"}) : x.name = t.name THEN <<Con(<<t.name, "~", ".", "~", "P">>, t.name \o ".P")>> ELSE <<>>
  IN [k |-> "field", name |-> Id("f", m), type |-> t, value |-> IF Chance(1, 2) THEN <<>> ELSE value, attrs |-> Attrs(m), conds |-> IF Chance(1, 5) THEN <<Cond(1)>> ELSE <<>>,
      quals |-> (IF {"native", "importonly"} \cap Range(e.quals) # {} /\ Chance(1, 2) THEN <<"native">> ELSE <<>>) \o (IF Keeps(t) /\ Chance(1, 3) THEN <<"persistent">> ELSE <<>>)]
Member(m, e, V, ents) == IF Chance(1, 2) THEN Method(m, e, V, ents) ELSE Field(m, e, V)
EnumMeans(v) == IF v = "4294967296l" THEN "4294967296" ELSE v

\* ---------------------------------------------------------------- text: lines, and the lines functions start on
Blk(lines) == [lines |-> lines, at |-> <<>>]
Plus(a, b) == [lines |-> a.lines \o b.lines, at |-> a.at \o [n \in DOMAIN b.at |-> <<b.at[n][1], b.at[n][2] + Len(a.lines)>>]]
Cat(bs) == FoldLeft(Plus, Blk(<<>>), bs)
Notes == << <<>>, << <<"// note">> >>, << <<"// zażółć {">> >>, << <<"/*", "a", "/* nested */">>, <<"func", "X", "*/">> >>, << <<>>, <<>> >> >>
Note(n) == Blk(Notes[R(DOMAIN Notes)])
Quals(vis, quals) == Mix((IF vis = "" THEN <<>> ELSE <<vis>>) \o quals)
RECURSIVE CondToks(_)
CondToks(c) == CASE c.k = "lit" -> <<IF c.v THEN "true" ELSE "false">>
                 [] c.k = "exists" -> <<"ModuleExists", "~", "(", "\"" \o JoinStr(c.mod, ".") \o "\"", ")">>
                 [] c.k = "not" -> <<"!", "~", "(">> \o CondToks(c.a) \o <<")">>
                 [] c.k = "and" -> <<"(">> \o CondToks(c.a) \o <<"&&">> \o CondToks(c.b) \o <<")">>
                 [] c.k = "or" -> <<"(">> \o CondToks(c.a) \o <<"||">> \o CondToks(c.b) \o <<")">>
                 [] c.k = "if" -> <<"(", "(">> \o CondToks(c.c) \o <<")", "?">> \o CondToks(c.a) \o <<":">> \o CondToks(c.b) \o <<")">>
Ifs(conds) == [n \in DOMAIN conds |-> <<"@", "~", "if", "~", "(">> \o CondToks(conds[n]) \o <<")">>]
AttrLines(attrs) == [n \in DOMAIN attrs |-> <<"@", "~", "runtimeProperty", "~", "(", "\"" \o attrs[n][1] \o "\"", ",", "\"" \o attrs[n][2] \o "\"", ")">>]
RECURSIVE List(_)
List(ss) == IF ss = <<>> THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o <<",">> \o List(Tail(ss))
Onto(a, e) == << <<"@", "~", a, "~", "(", e, ")">> >>
FnBlk(f, vis, conds, key) ==
  LET head == Quals(vis, f.quals) \o <<"func", f.name, "~", "(">> \o List([n \in DOMAIN f.params |-> f.params[n].quals \o <<f.params[n].name, ":", Pretty(f.params[n].type)>>]) \o <<")">>
              \o (IF f.ret = <<>> THEN (IF Chance(1, 4) THEN <<"->", "Void">> ELSE <<>>) ELSE <<"->", Pretty(f.ret[1])>>)
      decl == TLCEval(IF f.body = <<>> THEN <<head \o <<";">> >>
                      ELSE IF f.body[1].lines = <<>> /\ f.ret # <<>> /\ Chance(1, 2) THEN <<head \o <<"=">> \o Consts[f.ret[1].name][1].toks >>
                      ELSE <<head \o <<"{">> >> \o f.body[1].lines \o Returns(f.ret) \o << <<"}">> >>)
  IN [lines |-> Ifs(conds) \o (IF "onto" \in DOMAIN f THEN Onto("addMethod", f.onto) ELSE <<>>) \o decl, at |-> << <<key, 0>> >>]
MemberVis(m, e) == IF "vis" \in DOMAIN m THEN m.vis ELSE e.vis
MemberBlk(m, e, key) ==
  IF m.k = "method" THEN FnBlk(m, MemberVis(m, e), m.conds, key)
  ELSE Blk(FlattenSeq(Mix(<<Ifs(m.conds), AttrLines(m.attrs), IF "onto" \in DOMAIN m THEN Onto("addField", m.onto) ELSE <<>> >>)) \o << Quals(MemberVis(m, e), m.quals) \o <<"let", m.name, ":", Pretty(m.type)>> \o (IF m.value = <<>> THEN <<>> ELSE <<"=">> \o m.value[1].toks) \o <<";">> >>)
EntBlk(e) ==
  CASE e.k = "func" -> FnBlk(e.fn, e.vis, e.conds, <<e.n, 0>>)
    [] e.k \in {"let", "add"} -> IF e.members = <<>> THEN Blk(<<>>) ELSE MemberBlk([e.members[1] EXCEPT !.conds = e.conds], e, <<e.n, 0>>)
    [] e.k = "enum" -> Blk(Ifs(e.conds) \o << Quals(e.vis, <<>>) \o <<"enum", e.name, "{">> >> \o [n \in DOMAIN e.values |-> <<e.values[n][1], "=", e.values[n][2]>> \o (IF n < Len(e.values) \/ Chance(1, 2) THEN <<",">> ELSE <<>>)] \o << <<"}">> >>)
    [] OTHER -> Cat(<<Blk(Ifs(e.conds) \o << Quals(e.vis, e.quals) \o <<e.k, e.name>> \o (IF e.base = "" THEN <<>> ELSE <<"extends", e.base>>) \o <<"{">> >>)>>
                    \o Draw(2 * Len(e.members), LAMBDA n : IF n % 2 = 1 THEN Note(n) ELSE MemberBlk(e.members[n \div 2], e, <<e.n, n \div 2>>)) \o <<Blk(<< <<"}">> >>)>>)
ImportLine(i) == Ifs(i.conds) \o << <<"import">> \o <<JoinStr(i.mod, ".") \o ".">> \o (IF i.k = "one" THEN <<"~", i.names[1]>> ELSE IF i.k = "all" THEN <<"~", "*">> ELSE <<"{">> \o List([n \in DOMAIN i.names |-> <<i.names[n]>>]) \o <<"}">>) >>

\* ---------------------------------------------------------------- a case
Things == {"class", "struct", "enum", "func"}
\* what a declaration can be added to: a field, to a class that comes before it; a method, to one outside of modules that was there before the compilation
Before(x, e) == x.stage < e.stage \/ (x.stage = e.stage /\ (x.file < e.file \/ (x.file = e.file /\ x.n < e.n)))
Targets(e, V) == IF e.k = "let" THEN {x \in Named(V, {"class"}) : Before(x, e)} ELSE {x \in Named(V, {"class", "struct"}) : x.mod = <<>> /\ x.stage < e.stage}
Added(e, V, ents) ==
  IF Targets(e, V) = {} THEN e @@ [members |-> <<>>, base |-> ""]
  ELSE LET x == R(Targets(e, V)) m == TLCEval(IF e.k = "let" THEN Field(e.n, x, V) ELSE Method(e.n, x, V, ents)) IN
       e @@ [members |-> <<[m EXCEPT !.name = e.name] @@ [onto |-> x.name, n |-> x.n]>>, base |-> ""]
Mods_(files, s) == {f.mod : f \in {f \in Range(files) : f.stage = s}}
\* what the files define
Wants(files, full, sees, text) ==
  LET on == {e \in Range(full) : All(e.conds, Mods_(files, e.stage))}
      \* files count from 0 in every run
      fileNo(n) == Cardinality({m \in 1..(n - 1) : files[m].stage = files[n].stage})
      place(e, m) == LET a == text[e.file].at x == CHOOSE x \in DOMAIN a : a[x][1] = <<e.n, m>> IN <<"file" \o ToString(fileNo(e.file)) \o ".reds", a[x][2]>>
      has(e) == {m \in DOMAIN e.members : All(e.members[m].conds, Mods_(files, e.stage))}
      sub(e, k) == LET ns == SetToSortSeq(has(e), <) own == SelectSeq(ns, LAMBDA m : e.members[m].k = k)
                       more == {x \in on : x.k \in {"let", "add"} /\ x.members # <<>> /\ x.members[1].n = e.n /\ x.members[1].k = k}
                       late == SetToSortSeq(more, Before)
                   IN [n \in DOMAIN own |-> e.members[own[n]]] \o [n \in DOMAIN late |-> late[n].members[1]]
      defs(e) ==
        LET V == sees[e.file] IN
        CASE e.k = "func" -> {FnDef(e.fn, "", Vis(e.vis), V, place(e, 0))}
          [] e.k = "enum" -> {[k |-> "enum", name |-> Full(e), values |-> [n \in DOMAIN e.values |-> <<e.values[n][1], EnumMeans(e.values[n][2])>>]]}
          [] e.k = "let" -> IF e.members = <<>> THEN {} ELSE LET m == e.members[1] c == CHOOSE c \in Range(full) : c.n = m.n IN {FieldDef(m, Full(c), Vis(e.vis), V)}
          [] e.k = "add" -> IF e.members = <<>> THEN {} ELSE LET m == e.members[1] c == CHOOSE c \in Range(full) : c.n = m.n IN {FnDef(m, Full(c), Vis(e.vis), V, place(e, 0))}
          [] OTHER -> {[k |-> "class", name |-> Full(e), vis |-> Vis(e.vis), flags |-> SetToSeq(ClassFlags(e)),
                        base |-> IF e.k = "struct" THEN "" ELSE IF e.base = "" THEN "IScriptable" ELSE Full(CHOOSE x \in V : x.k = "class" /\ x.name = e.base),
                        fields |-> [n \in DOMAIN sub(e, "field") |-> sub(e, "field")[n].name],
                        fns |-> [n \in DOMAIN sub(e, "method") |-> Signature(sub(e, "method")[n])]]}
                      \cup {IF e.members[m].k = "field" THEN FieldDef(e.members[m], Full(e), Vis(MemberVis(e.members[m], e)), V)
                            ELSE FnDef(e.members[m], Full(e), Vis(MemberVis(e.members[m], e)), V, place(e, m)) : m \in has(e)}
  IN UNION {defs(e) : e \in on}
Texts(files, imps, full) ==
  Draw(Len(files), LAMBDA n :
    LET mine == SelectSeq(full, LAMBDA e : e.file = n) IN
    Cat(<<Note(n), IF files[n].mod = <<>> THEN Blk(<<>>) ELSE Blk(<< <<"module", JoinStr(files[n].mod, ".")>> >>)>> \o [m \in DOMAIN imps[n] |-> Blk(ImportLine(imps[n][m]))]
        \o Draw(2 * Len(mine), LAMBDA m : IF m % 2 = 1 THEN Note(m) ELSE EntBlk(mine[m \div 2]))))
Written(files, imps, full, sees) ==
  LET text == TLCEval(Texts(files, imps, full)) IN
  [k |-> "defs", stages |-> [s \in 1..Max({f.stage : f \in Range(files)}) |-> LET ns == SelectSeq([n \in DOMAIN files |-> n], LAMBDA n : files[n].stage = s) IN [m \in DOMAIN ns |-> text[ns[m]].lines]],
   want |-> SetToSeq(Wants(files, full, sees, text))]
Whole(files0, ents0) ==
  LET on0 == TLCEval({e \in Range(ents0) : e.k \in Things /\ All(e.conds, Mods_(files0, e.stage))})
      known(f) == {e \in on0 : e.stage <= f.stage}
      imps == Draw(Len(files0), LAMBDA n : Imports(files0[n], known(files0[n])))
      live(n) == SelectSeq(imps[n], LAMBDA i : All(i.conds, Mods_(files0, files0[n].stage)))
      sees == TLCEval([n \in DOMAIN files0 |-> {e \in known(files0[n]) : Visible(files0[n], live(n), e)}])
      \* signatures first: bodies call them
      sigs == Draw(Len(ents0), LAMBDA n : ents0[n] @@ [fn |-> TopFn(ents0[n])])
      full == Draw(Len(sigs), LAMBDA n : LET e == sigs[n] V == sees[e.file] IN
        CASE e.k = "func" -> LET b == TLCEval(Body(V, sigs)) IN [e EXCEPT !.fn.body = <<b>>, !.fn.last = LastUse(e.fn.ret)]
          [] e.k = "enum" -> e
          [] e.k \in {"let", "add"} -> TLCEval(Added(e, V, sigs))
          [] OTHER -> LET up == {x \in Named(V, {"class"}) : x.n < n} k == R(0..4) IN
                      e @@ [base |-> IF e.k = "class" /\ up # {} /\ Chance(1, 2) THEN R(up).name ELSE "", members |-> Draw(k, LAMBDA m : Member(m, e, V, sigs))])
  IN Written(files0, imps, full, sees)
Case(n) == LET two == Chance(1, 2) files == Draw(IF two THEN R(2..4) ELSE R(1..3), LAMBDA m : FileOf(m, two)) ents == Draw(n, LAMBDA m : Ent(m, files)) IN Whole(files, ents)
\* ---------------------------------------------------------------- every declaration under every choice of qualifiers
OneFile == <<[n |-> 1, mod |-> <<"M">>, stage |-> 1]>>
Ent1(n, k, name, vis, quals) == [n |-> n, k |-> k, file |-> 1, mod |-> <<"M">>, stage |-> 1, vis |-> vis, conds |-> <<>>, name |-> name, arg |-> "Int32", values |-> <<>>, quals |-> SetToSeq(quals)]
Hollow(quals, q) == "native" \in q \/ ("abstract" \in quals /\ "const" \in q)
Empty(name, quals, q) ==
  [k |-> "method", name |-> name, mod |-> <<>>, quals |-> SetToSeq(q), ret |-> IF "quest" \in q THEN <<Ty("Bool")>> ELSE <<>>, conds |-> <<>>,
   params |-> IF Cardinality(q) = 2 THEN <<>> ELSE <<Param("a", Ty("Int32"), q \cap {"const"}), Param("b", Of("array", Ty("Float")), (IF "exec" \in q THEN {"out"} ELSE {}) \cup (IF "cb" \in q THEN {"opt"} ELSE {}))>>,
   body |-> IF Hollow(quals, q) THEN <<>> ELSE <<NoBody>>, last |-> IF "quest" \in q /\ ~Hollow(quals, q) THEN LastUse(<<Ty("Bool")>>) ELSE <<>>]
Plain(name, t, q) == [k |-> "field", name |-> name, type |-> t, value |-> IF t.args = <<>> THEN <<Consts[t.name][1]>> ELSE <<>>, attrs |-> IF "persistent" \in q THEN << <<"k", "v">> >> ELSE <<>>, conds |-> <<>>, quals |-> SetToSeq(q)]
FieldTypes == <<Ty("Int32"), Of("array", Ty("Bool")), Ty("CName"), Of("array", Of("array", Ty("Float")))>>
Numbered(S) == SetToSeq(S)
QClass(k, vis, quals) ==
  LET open == quals \cap {"native", "importonly"} # {}
      ms == Numbered({q \in SUBSET {"final", "const", "quest", "exec", "cb", "static", "native"} : ("native" \in q => open) /\ (k = "struct" => "static" \in q)})
      fs == Numbered({q \in SUBSET {"native", "persistent"} : "native" \in q => open})
      e == Ent1(1, k, "C1", vis, quals) @@ [fn |-> [body |-> <<>>], base |-> "",
           members |-> [n \in DOMAIN ms |-> Empty(Id("m", n), quals, ms[n])] \o [n \in 1..(Len(fs) * 4) |-> Plain(Id("f", n), FieldTypes[(n % 4) + 1], fs[((n - 1) \div 4) + 1])]]
  IN Written(OneFile, << <<>> >>, <<e>>, << {e} >>)
QFuncs(vis) ==
  LET qs == Numbered(SUBSET {"final", "const", "quest", "exec", "cb", "static", "native"})
      es == [n \in DOMAIN qs |-> LET e == Ent1(n, "func", Id("F", n), vis, qs[n]) IN e @@ [base |-> "", members |-> <<>>, fn |-> [Empty(Id("F", n), {}, qs[n]) EXCEPT !.mod = <<"M">>]]]
  IN Written(OneFile, << <<>> >>, es, << {} >>)
InitQ == \E vis \in {"public", "protected", "private", ""} :
  \/ \E quals \in SUBSET {"abstract", "final", "native", "importonly"} : theCase = TLCEval(QClass("class", vis, quals))
  \/ \E quals \in SUBSET {"final", "native", "importonly"} : theCase = TLCEval(QClass("struct", vis, quals))
  \/ theCase = TLCEval(QFuncs(vis))
\* members that say who sees them
InitVisibility ==
  LET e == Ent1(1, "class", "C1", "public", {}) @@ [fn |-> [body |-> <<>>], base |-> "", members |-> <<Empty("m", {}, {}) @@ [vis |-> "protected"], Plain("f", Ty("Int32"), {}) @@ [vis |-> "private"]>>]
  IN theCase = TLCEval(Written(OneFile, << <<>> >>, <<e>>, << {e} >>))
Prelude == <<"native", "class", "IScriptable", "{", "}", "native", "func", "Any", "(", "o", ":", "ref", "~", "<", "IScriptable", ">", ")", ";">>
           \o FlattenSeq([n \in 1..4 |-> LET t == <<"Int32", "Int64", "Float", "Double">>[n] IN <<"native", "func", "OperatorNeg", "~", "(", "a", ":", t, ")", "->", t, ";">>])
ASSUME PrintT("CASE " \o ToJson([k |-> "env", prelude |-> Prelude, lazy |-> <<>>, rename |-> <<>>]))
InitR == \E n \in 1..Rounds : \E c \in {TLCEval(Case(R(1..9)))} : theCase = c
Next == FALSE /\ UNCHANGED theCase
EmitCase == PrintT("CASE " \o ToJson(theCase))
=============================================================================
