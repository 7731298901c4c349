------------------------------- MODULE RsImage ------------------------------
(***************************************************************************)
(* Bundles as graphs of definitions.  A definition has                     *)
(*   k       what it is                                                    *)
(*   name, short (without the signature), parent                           *)
(*   refs    what it refers to: kinds and indices                          *)
(*   owns    what it lists as its own: methods, fields, members, locals    *)
(*   uses    the locals and parameters its code reads and writes           *)
(*   same    a fingerprint of all of it                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, Functions, TLC

Is(D, r) == r.i \in DOMAIN D /\ D[r.i].k = r.k
Link(k, i) == [k |-> k, i |-> i]
Refs(D, x, k) == SelectSeq(D[x].refs, LAMBDA r : r.k = k)
\* ---------------------------------------------------------------- well-formedness
BadRef(D) == {x \in DOMAIN D : \E r \in Range(D[x].refs) \cup Range(D[x].owns) \cup Range(D[x].uses) : ~Is(D, r)}
\* what a definition owns has it as its parent, and nothing is owned twice
BadOwner(D) == {x \in DOMAIN D : (\E r \in Range(D[x].owns) : D[r.i].parent # x) \/ Cardinality(Range(D[x].owns)) # Len(D[x].owns)}
\* members are listed by what they belong to
Members == {"field", "value"}
Orphans(D) == {x \in DOMAIN D : D[x].k \in Members /\ D[x].parent # 0 /\ ~(D[x].parent \in DOMAIN D /\ Link(D[x].k, x) \in Range(D[D[x].parent].owns))}
          \cup {x \in DOMAIN D : D[x].k = "function" /\ D[x].parent # 0 /\ ~(D[x].parent \in DOMAIN D /\ Link("function", x) \in Range(D[D[x].parent].owns))}
\* code uses the function's own locals and parameters
BadUse(D) == {x \in DOMAIN D : D[x].k = "function" /\ ~(Range(D[x].uses) \subseteq Range(D[x].owns) \cup Range(Refs(D, x, "param")))}
\* the game reads a class after its base
EarlyClass(D) == {x \in DOMAIN D : D[x].k = "class" /\ \E r \in Range(D[x].refs) : r.k = "class" /\ r.i >= x}
\* types of one name are one type (the compiler may define it once for every function that needs it)
Shape(D, x) == <<D[x].sort, [m \in DOMAIN D[x].refs |-> D[D[x].refs[m].i].name]>>
TwoTypes(D) == LET S == {x \in DOMAIN D : D[x].k = "type"} IN {x \in S : \E y \in S : y < x /\ D[y].name = D[x].name /\ Shape(D, x) # Shape(D, y)}
\* a method overrides one of the same signature, of a class above
RECURSIVE Above(_, _)
Above(D, c) == IF c \notin DOMAIN D \/ D[c].k # "class" THEN {} ELSE LET B == {r.i : r \in Range(Refs(D, c, "class"))} IN B \cup UNION {Above(D, b) : b \in {b \in B : b < c}}
BadBase(D) == {x \in DOMAIN D : "base" \in DOMAIN D[x] /\ ~(D[x].base \in DOMAIN D /\ D[D[x].base].parent \in Above(D, D[x].parent))}
Bad(D) == LET r == BadRef(D) IN
  IF r # {} THEN {<<"refers to something else", x>> : x \in r}
  ELSE {<<"owns something of another", x>> : x \in BadOwner(D)} \cup {<<"is not listed by its owner", x>> : x \in Orphans(D)} \cup {<<"uses a local of another function", x>> : x \in BadUse(D)}
       \cup {<<"comes before its base", x>> : x \in EarlyClass(D)} \cup {<<"is two types", x>> : x \in TwoTypes(D)} \cup {<<"overrides no method of a base", x>> : x \in BadBase(D)}
\* ---------------------------------------------------------------- what a compilation leaves alone
\* touched: names of functions and classes the sources change
Owner(D, x) == LET p == D[x].parent IN IF p \in DOMAIN D /\ D[x].k \in {"param", "local", "function", "field"} THEN p ELSE x
Free(D, x, touched) == D[x].short \in touched \/ (D[x].k \in {"param", "local"} /\ D[Owner(D, x)].short \in touched)
Changed(D, E, touched) == {x \in DOMAIN D : x \notin DOMAIN E \/ (E[x].same # D[x].same /\ ~Free(D, x, touched))}
\* and what it only adds to
Lost(D, E) == {x \in DOMAIN D : D[x].k \in {"class", "enum"} /\ x \in DOMAIN E /\ ~(E[x].name = D[x].name /\ \A r \in Range(D[x].owns) : r \in Range(E[x].owns))}
=============================================================================
