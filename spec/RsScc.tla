-------------------------------- MODULE RsScc -------------------------------
(***************************************************************************)
(* An installation: the script bundle of the game, the backup the compiler *)
(* keeps of it, and the time stamp by which it recognises its own output.  *)
(* A run is a sequence of file operations; it may stop after any of them.  *)
(*                                                                         *)
(* Bundles are named by what is in them: "1", "2" are the game's own, of a *)
(* version; "1+ab" is version 1 with mods a and b compiled into it.  "bad" *)
(* is a file that was not written to its end.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* places: D is r6/cache, C a directory the user names, O another file to write to
Dirs == {"D", "C"}
Final(d) == d \o "/final"  Backup(d) == d \o "/backup"  Stamp(d) == d \o "/stamp"  Legacy(d) == d \o "/legacy"
Bundles == {Final(d) : d \in Dirs} \cup {Backup(d) : d \in Dirs} \cup {"O"}
Stamps == {Stamp(d) : d \in Dirs} \cup {Legacy(d) : d \in Dirs}
None == "-"
NoFile == -1
Empty == 0
\* has[p]: what is in bundle p; at[p]: when it was last written; ts[p]: the time a stamp file holds
Versions == {"1", "2", "3"}
Ours(c) == c \notin Versions \cup {None, "bad"}
Compiled(c, mods) == c \o "+" \o mods
\* ---------------------------------------------------------------- runs: the states a run goes through, and how it ends
Run(s) == [states |-> <<s>>, err |-> ""]
Now(r) == r.states[Len(r.states)]
Then(r, s) == IF r.err # "" THEN r ELSE [r EXCEPT !.states = Append(@, s)]
Fail(r, e) == IF r.err # "" THEN r ELSE [r EXCEPT !.err = e]
Put(s, p, c) == [s EXCEPT !.has[p] = c, !.at[p] = s.clock + 1, !.clock = @ + 1]
Copy(r, from, to) == IF Now(r).has[from] = None THEN Fail(r, "missing") ELSE Then(r, Put(Now(r), to, Now(r).has[from]))
Write(r, p, c) == Then(Then(r, Put(Now(r), p, "bad")), Put(Put(Now(r), p, "bad"), p, c))
Move(r, from, to) == LET s == Now(r) IN Then(r, [s EXCEPT !.has[to] = s.has[from], !.at[to] = s.at[from], !.has[from] = None, !.at[from] = 0])
Drop(r, p) == Then(r, [Now(r) EXCEPT !.has[p] = None, !.at[p] = 0])
Mark(r, p, t) == Then(r, [Now(r) EXCEPT !.ts[p] = t])
When(c, r, Op(_)) == IF r.err = "" /\ c THEN Op(r) ELSE r
Gone(s, p) == s.has[p] = None

\* cfg: [dir |-> where the bundle is, out |-> "" or "O"]; mods: what there is to compile, "!" if it does not compile
Compile(s0, cfg, mods) ==
  LET d == cfg.dir  f == Final(d)  b == Backup(d)  t == Stamp(d)  separate == cfg.out # ""
      out == IF separate THEN cfg.out ELSE f
      \* a bundle that is not there yet is made from the game's
      r1 == When(Gone(s0, f), Run(s0), LAMBDA r : Copy(r, IF Gone(s0, Backup("D")) THEN Final("D") ELSE Backup("D"), f))
      \* so is its backup, when the game's has one
      r2 == When(~Gone(Now(r1), Backup("D")) /\ Gone(Now(r1), b), r1, LAMBDA r : Copy(r, Backup("D"), b))
      r3 == When(Now(r2).ts[t] = NoFile /\ Now(r2).ts[Legacy(d)] # NoFile, r2, LAMBDA r : LET s == Now(r) IN Then(r, [s EXCEPT !.ts[t] = s.ts[Legacy(d)], !.ts[Legacy(d)] = NoFile]))
      r4 == When(Now(r3).ts[t] = NoFile, r3, LAMBDA r : Mark(r, t, Empty))
      s4 == Now(r4)  saved == s4.ts[t]  written == s4.at[f]  kept == ~Gone(s4, b)
      r5 == IF r4.err # "" THEN r4
            ELSE IF separate THEN (IF kept THEN (IF saved # written THEN Drop(r4, b) ELSE Move(r4, b, f)) ELSE r4)
            ELSE IF saved = Empty /\ kept THEN r4
            \* what is there is not of our making: it is the game's, or the game's again
            ELSE IF saved # written THEN LET r == Copy(r4, f, b) IN Mark(r, t, written)
            ELSE IF ~kept THEN Fail(r4, "lost") ELSE r4
      from == IF separate THEN f ELSE b
      r6 == IF r5.err = "" /\ Now(r5).has[from] = "bad" THEN Fail(r5, "unreadable") ELSE r5
      r7 == IF r6.err = "" /\ Ours(Now(r6).has[from]) THEN Fail(r6, "corrupted") ELSE r6
      r8 == IF mods = "!" THEN Fail(r7, "rejected") ELSE r7
      \* while the output is being written nothing is known about it
      r9 == When(TRUE, r8, LAMBDA r : Mark(r, t, Empty))
      r10 == When(TRUE, r9, LAMBDA r : Write(r, out, Compiled(Now(r).has[from], mods)))
  IN When(TRUE, r10, LAMBDA r : Mark(r, t, Now(r).at[out]))

\* ---------------------------------------------------------------- what else happens
Update(s, v) == Put(s, Final("D"), v)
Remove(s, p) == IF p \in Stamps THEN [s EXCEPT !.ts[p] = NoFile] ELSE [s EXCEPT !.has[p] = None, !.at[p] = 0]
Fresh == [has |-> [p \in Bundles |-> IF p = Final("D") THEN "1" ELSE None], at |-> [p \in Bundles |-> IF p = Final("D") THEN 1 ELSE 0], ts |-> [p \in Stamps |-> NoFile], clock |-> 1]
\* left by a version that kept its stamp elsewhere
Old == [has |-> [p \in Bundles |-> CASE p = Final("D") -> "1+a" [] p = Backup("D") -> "1" [] OTHER -> None],
        at |-> [p \in Bundles |-> CASE p = Final("D") -> 2 [] p = Backup("D") -> 1 [] OTHER -> 0], ts |-> [p \in Stamps |-> IF p = Legacy("D") THEN 2 ELSE NoFile], clock |-> 2]
\* what can be seen of it: contents, and whose time a stamp file holds
Seen(s) == [has |-> s.has, ts |-> [p \in Stamps |-> IF s.ts[p] = NoFile THEN None ELSE IF s.ts[p] = Empty THEN "empty"
                                   ELSE IF \E q \in Bundles : s.at[q] = s.ts[p] /\ s.has[q] # None THEN CHOOSE q \in Bundles : s.at[q] = s.ts[p] /\ s.has[q] # None ELSE "other"]]
=============================================================================
