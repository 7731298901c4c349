------------------------------ MODULE GenMapper -----------------------------
EXTENDS RsMapper, Json
CONSTANT MaxSteps, Small
VARIABLES defs, hist
vars == <<defs, hist>>

Src == {"1", "2"}
Dst == {"1", "2", "5", "0"}
Maps == UNION {[S -> Dst] : S \in SUBSET Src}
SmallMaps == {<<>>} \cup {[x \in {"1"} |-> "2"], [x \in Src |-> IF x = "1" THEN "2" ELSE "1"], [x \in Src |-> "5"],
              [x \in Src |-> IF x = "1" THEN "2" ELSE "5"]}
Pick == IF Small THEN SmallMaps ELSE Maps

Base(k, parent) == [kind |-> k, name |-> "1", parent |-> parent, u1 |-> "0", u2 |-> "0", u3 |-> "0"]
Refs == <<"0", "1", "2", "3">>
\* every instruction, with every index operand set to r
Val(k, r) == IF k \in {"idx", "idx4", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64"} THEN r
             ELSE IF k = "jump" THEN 5 ELSE IF k = "str" THEN "f" ELSE IF k = "bool" THEN "0" ELSE "1.5"
AllInstrs(r) == [n \in 1..(Len(OpTable) - 1) |->
   LET t == OpTable[IF n < OpcodeOf["Target"] + 1 THEN n ELSE n + 1]
   IN [op |-> t[1], args |-> [m \in DOMAIN t[2] |-> Val(t[2][m], r)]]]
Defs0 == FlattenSeq([n \in 1..4 |-> LET r == Refs[n] IN <<
   Base("Type", r) @@ [type |-> "Ref", inner |-> r, size |-> "0"],
   Base("Class", r) @@ [vis |-> "Public", flags |-> {}, base |-> r, functions |-> <<r>>, fields |-> <<r>>, overrides |-> <<r>>],
   Base("EnumValue", r) @@ [value |-> "7"],
   Base("Enum", r) @@ [flags |-> "0", size |-> "4", members |-> <<r>>, unk1 |-> FALSE],
   Base("Function", r) @@ [vis |-> "Public", flags |-> {}, source |-> <<r, "3">>, ret |-> <<r>>, unk1 |-> FALSE, base |-> <<r>>,
         params |-> <<r>>, locals |-> <<r>>, operator |-> <<"1">>, cast |-> "0", code |-> AllInstrs(r), unk2 |-> <<r>>],
   Base("Parameter", r) @@ [type |-> r, flags |-> {}],
   Base("Local", r) @@ [type |-> r, flags |-> {}],
   Base("Field", r) @@ [vis |-> "Public", type |-> r, flags |-> {}, hint |-> <<>>, attrs |-> <<>>, defaults |-> <<>>],
   Base("SourceFile", r) @@ [id |-> "1", hash |-> "0", path |-> <<"a.reds">>] >>])

Init == defs = Defs0 /\ hist = <<>>
Remap(cm, fm) == /\ defs' = MapPool(defs, cm, fm)
                 /\ hist' = Append(hist, [cm |-> cm, fm |-> fm])
Pairs(m) == IF m = <<>> THEN {} ELSE {<<x, m[x]>> : x \in DOMAIN m}
Next == Len(hist) < MaxSteps /\ \E cm, fm \in Pick : Remap(cm, fm)

\* remapping never adds or removes a definition, never changes a kind, a name or a length, and is the identity without maps
Shape == /\ Len(defs) = Len(Defs0)
         /\ \A n \in DOMAIN defs : defs[n].kind = Defs0[n].kind /\ defs[n].name = Defs0[n].name
         /\ (hist # <<>> /\ \A n \in DOMAIN hist : hist[n].cm = <<>> /\ hist[n].fm = <<>>) => defs = Defs0
\* what is left after an exchange of 1 and 2 done twice is the original
SwapTwice == (Len(hist) = 2 /\ hist[1] = hist[2] /\ \A m \in {hist[1].cm, hist[1].fm} :
                 DOMAIN m = Src /\ m["1"] = "2" /\ m["2"] = "1") => defs = Defs0
EmitHist == Len(hist) = MaxSteps =>
   PrintT("CASE " \o ToJson([k |-> "map", before |-> Defs0, after |-> defs,
       steps |-> [n \in DOMAIN hist |-> [cm |-> Pairs(hist[n].cm), fm |-> Pairs(hist[n].fm)]]]))
=============================================================================
