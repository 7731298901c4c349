------------------------------ MODULE GenFiles ------------------------------
EXTENDS RsFiles, Json
CONSTANT Funs
VARIABLE c
B(k, name, parent) == [kind |-> k, name |-> name, parent |-> parent, u1 |-> 0, u2 |-> 0, u3 |-> 0]
D0 == B("Type", 0, 0) @@ [type |-> "Prim", inner |-> 0, size |-> 0]
Src(p) == B("SourceFile", 0, 0) @@ [id |-> 1, hash |-> 0, path |-> p]
Cls(fs) == B("Class", 1, 0) @@ [vis |-> "Public", flags |-> {}, base |-> 0, functions |-> fs, fields |-> <<>>, overrides |-> <<>>]
En == B("Enum", 1, 0) @@ [flags |-> 0, size |-> 4, members |-> <<9>>, unk1 |-> FALSE]
Fun(o) == B("Function", 1, o.parent) @@ [vis |-> "Public", flags |-> IF o.src = <<>> THEN {"is_native"} ELSE {}, source |-> o.src, ret |-> <<>>, unk1 |-> FALSE,
          base |-> <<>>, params |-> <<>>, locals |-> <<>>, operator |-> <<>>, cast |-> 0, code |-> <<>>, unk2 |-> <<>>]
Fld == B("Field", 1, 5) @@ [vis |-> "Public", type |-> 4, flags |-> {}, hint |-> <<>>, attrs |-> <<>>, defaults |-> <<>>]
\* 0 placeholder, 1..3 files, 4 type, 5 6 classes, 7 class without functions, 8 enum, 9 enum value, 10 field, 11.. functions
Opts == [parent : {0, 5, 6}, src : {<<>>, <<1, 3>>, <<1, 90>>, <<2, 5>>, <<3, 0>>}]
FunsOf(os, p) == SelectSeq([n \in DOMAIN os |-> n + 10], LAMBDA i : os[i - 10].parent = p)
Defs(os) == << D0, Src(<<"a.reds">>), Src(<<"x", "b.reds">>), Src(<<"x", "y", "~utf8">>), B("Type", 1, 0) @@ [type |-> "Prim", inner |-> 0, size |-> 0],
               Cls(FunsOf(os, 5)), Cls(FunsOf(os, 6)), Cls(<<>>), En, B("EnumValue", 1, 8) @@ [value |-> 3], Fld >>
            \o [n \in DOMAIN os |-> Fun(os[n])]
Case(ds) == [k |-> "files", defs |-> ds, orphans |-> Orphans(ds),
             files |-> {[path |-> At(ds, f).path, defs |-> FileDefs(ds, f)] : f \in FileSet(ds)},
             lines |-> [i \in 1..Len(ds) |-> FirstLine(ds, i - 1)]]
Init == \E os \in [1..Funs -> Opts] : c = Case(Defs(os))
\* more definitions per file, chosen at random: the order matters
Rnd == [n \in 1..8 |-> RandomElement(Opts)]
InitRnd == \E k \in 1..400 : c = Case(Defs([n \in 1..8 |-> RandomElement([parent : {0, 5, 6}, src : {<<>>} \cup ({1, 2} \X (1..9))])]))
Next == FALSE /\ UNCHANGED c
FilesInv == Complete(c.defs) /\ Disjoint(c.defs)
EmitCase == PrintT("CASE " \o ToJson(c))
=============================================================================
