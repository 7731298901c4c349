------------------------------- MODULE RsFiles ------------------------------
(***************************************************************************)
(* Dumping a bundle into files.  A function that knows its source file puts *)
(* the definition it belongs to (its class, or itself when it is global)   *)
(* into that file; what has no source - enums, classes without a scripted  *)
(* method, native global functions - goes into "orphans.script".  Inside a *)
(* file, definitions come in the order of the first line they came from.   *)
(* defs: sequence, index 0 is element 1; indices are numbers here.         *)
(***************************************************************************)
EXTENDS RsBundle

At(ds, i) == ds[i + 1]
Has(ds, i) == i + 1 \in DOMAIN ds
Idxs0(ds) == 1..(Len(ds) - 1)
IsFun(ds, i) == Has(ds, i) /\ At(ds, i).kind = "Function"
SourceOf(ds, i) == IF IsFun(ds, i) THEN At(ds, i).source ELSE <<>>
Lines(ds, i) == CASE At(ds, i).kind = "Function" -> IF At(ds, i).source = <<>> THEN {} ELSE {At(ds, i).source[2]}
                  [] At(ds, i).kind = "Class" ->
                       {At(ds, f).source[2] : f \in {g \in {At(ds, i).functions[n] : n \in DOMAIN At(ds, i).functions} :
                                                       IsFun(ds, g) /\ At(ds, g).source # <<>>}}
                  [] OTHER -> {}
FirstLine(ds, i) == LET L == Lines(ds, i) IN IF L = {} THEN 0 ELSE CHOOSE l \in L : \A m \in L : l <= m

RootOf(ds, i) == IF At(ds, i).parent = 0 THEN i ELSE At(ds, i).parent
FileDefs(ds, f) == {RootOf(ds, i) : i \in {j \in Idxs0(ds) : SourceOf(ds, j) # <<>> /\ SourceOf(ds, j)[1] = f}}
FileSet(ds) == {f \in Idxs0(ds) : At(ds, f).kind = "SourceFile" /\ FileDefs(ds, f) # {}}
IsOrphan(ds, i) ==
  LET d == At(ds, i) IN
  CASE d.kind = "Class" -> \A n \in DOMAIN d.functions : IsFun(ds, d.functions[n]) => "is_native" \in At(ds, d.functions[n]).flags
    [] d.kind = "Enum" -> TRUE
    [] d.kind = "Function" -> d.parent = 0 /\ "is_native" \in d.flags
    [] OTHER -> FALSE
Orphans(ds) == {i \in Idxs0(ds) : IsOrphan(ds, i)}

\* nothing the user wrote is lost by dumping into files, and nothing is both an orphan and in a file
Toplevel(ds) == {i \in Idxs0(ds) : At(ds, i).kind \in {"Class", "Enum"} \/ (At(ds, i).kind = "Function" /\ At(ds, i).parent = 0)}
Complete(ds) == Toplevel(ds) = Orphans(ds) \cup UNION {FileDefs(ds, f) : f \in FileSet(ds)}
Disjoint(ds) == \A f \in FileSet(ds) : FileDefs(ds, f) \cap Orphans(ds) = {}
=============================================================================
