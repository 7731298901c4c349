------------------------------- MODULE RsOpts -------------------------------
(***************************************************************************)
(* The command line of scc.                                                *)
(*  - It is "-compile DIR" followed, in any order, by option groups, each  *)
(*    at most once (warnings any number of times), and at most one bare    *)
(*    path, the cache file.  Anything else is refused.                     *)
(*  - The game quotes every path, and a path that ends in a backslash then *)
(*    escapes its closing quote, so that the operating system splits the   *)
(*    line wrongly (WinSplit is its rule).  The arguments are repaired     *)
(*    before parsing: the repair gives back what the game meant.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Defaults == [scripts_dir |-> "", cache_dir |-> "~none", cache_file |-> "~none", output_cache_file |-> "~none", script_paths_file |-> "~none",
             optimize |-> FALSE, threads |-> 1, warnings |-> <<>>, no_testonly |-> FALSE, no_breakpoint |-> FALSE, profile |-> TRUE,
             no_exec |-> FALSE, no_debug |-> FALSE]

\* a group: the field it sets, the arguments it consists of, the value it gives
Group(f, a, v) == [field |-> f, args |-> a, val |-> <<v>>]
ApplyGroup(o, g) == IF g.field = "warnings" THEN [o EXCEPT !.warnings = Append(@, g.val[1])] ELSE [o EXCEPT ![g.field] = g.val[1]]

\* ---------------------------------------------------------------- how the operating system splits a command line
\* text: sequence of characters (one-character strings).  st: [args, cur, have, q]
RECURSIVE Split(_, _)
Split(text, st) ==
  IF text = <<>> THEN (IF st.have THEN Append(st.args, st.cur) ELSE st.args)
  ELSE LET ch == Head(text) IN
    IF ch = "\\" THEN
      LET n == CHOOSE m \in 1..Len(text) : (\A x \in 1..m : text[x] = "\\") /\ (m = Len(text) \/ text[m + 1] # "\\")
          rest == SubSeq(text, n + 1, Len(text)) IN
      IF rest # <<>> /\ Head(rest) = "\"" THEN
        LET st1 == [st EXCEPT !.cur = @ \o [x \in 1..(n \div 2) |-> "\\"], !.have = TRUE] IN
        IF n % 2 = 1 THEN Split(Tail(rest), [st1 EXCEPT !.cur = Append(@, "\"")])
        ELSE Split(Tail(rest), [st1 EXCEPT !.q = ~@])
      ELSE Split(rest, [st EXCEPT !.cur = @ \o [x \in 1..n |-> "\\"], !.have = TRUE])
    ELSE IF ch = "\"" THEN Split(Tail(text), [st EXCEPT !.q = ~@, !.have = TRUE])
    ELSE IF ch = " " /\ ~st.q THEN
      Split(Tail(text), [st EXCEPT !.args = IF st.have THEN Append(@, st.cur) ELSE @, !.cur = <<>>, !.have = FALSE])
    ELSE Split(Tail(text), [st EXCEPT !.cur = Append(@, ch), !.have = TRUE])
WinSplit(text) == Split(text, [args |-> <<>>, cur |-> <<>>, have |-> FALSE, q |-> FALSE])

\* how the game writes an argument: options bare, paths quoted
Written(a) == IF a[1] = "-" THEN a ELSE <<"\"">> \o a \o <<"\"">>
RECURSIVE Line(_)
Line(as) == IF as = <<>> THEN <<>> ELSE IF Len(as) = 1 THEN Written(as[1]) ELSE Written(as[1]) \o <<" ">> \o Line(Tail(as))

RECURSIVE Concat(_)
Concat(s) == IF s = <<>> THEN "" ELSE s[1] \o Concat(Tail(s))
=============================================================================
