------------------------------ MODULE GenOpts -------------------------------
EXTENDS RsOpts, Json
CONSTANT MaxGroups, MaxPaths
VARIABLES o, args, used, ok, n
vars == <<o, args, used, ok, n>>

Groups == {Group("cache_file", <<"C:\\g\\f.r">>, "C:\\g\\f.r"), Group("cache_dir", <<"-customCacheDir", "C:\\a b\\">>, "C:\\a b\\"),
           Group("output_cache_file", <<"-outputCacheFile", "out">>, "out"), Group("script_paths_file", <<"-compilePathsFile", "p.txt">>, "p.txt"),
           Group("optimize", <<"-optimize">>, TRUE), Group("no_testonly", <<"-no-testonly">>, TRUE), Group("no_breakpoint", <<"-no-breakpoint">>, TRUE),
           Group("no_exec", <<"-no-exec">>, TRUE), Group("no_debug", <<"-no-debug">>, TRUE),
           Group("threads", <<"-threads", "4">>, 4), Group("threads", <<"-threads", "255">>, 255), Group("threads", <<"-threads", "0">>, 0),
           Group("profile", <<"-profile=on">>, TRUE), Group("profile", <<"-profile=off">>, FALSE),
           Group("warnings", <<"-Wnone">>, "none"), Group("warnings", <<"-Wall">>, "all"), Group("warnings", <<"-W">>, "")}

Init == /\ \E d \in {"scripts", "C:\\Program Files\\r6\\scripts\\"} : o = [Defaults EXCEPT !.scripts_dir = d] /\ args = <<"-compile", d>>
        /\ used = {} /\ ok = TRUE /\ n = 0
Add(g) == /\ ok /\ n < MaxGroups
          /\ g.field \notin used
          /\ o' = ApplyGroup(o, g) /\ args' = args \o g.args /\ n' = n + 1 /\ ok' = TRUE
          /\ used' = IF g.field = "warnings" THEN used ELSE used \cup {g.field}
\* lines that are refused: from any accepted one, one more thing that cannot be there
Bad == {<<"-unknown">>, <<"-threads", "256">>, <<"-threads", "x">>, <<"-threads">>, <<"-profile=maybe">>, <<"-profile">>, <<"-customCacheDir">>,
        <<"-compile", "again">>, <<"-outputCacheFile">>, <<"-optimized">>, <<"-no-exe">>}
Spoil == /\ ok /\ n < MaxGroups /\ n' = n + 1 /\ ok' = FALSE /\ UNCHANGED <<o, used>>
         /\ \/ \E b \in Bad : args' = args \o b
            \/ \E g \in Groups : g.field \in used /\ args' = args \o g.args
            \/ "cache_file" \in used /\ args' = Append(args, "another")
            \/ args' = SubSeq(args, 2, Len(args))
            \/ \E g \in Groups : args' = g.args \o args
Next == (\E g \in Groups : Add(g)) \/ Spoil
\* each group is visible in the result, and only the groups given
OnlyGiven == ok => \A f \in DOMAIN o : f \notin used \cup {"scripts_dir", "warnings"} => o[f] = Defaults[f]
Emit == PrintT("CASE " \o ToJson([k |-> "opts", args |-> args, ok |-> ok, want |-> o]))
EmitDone == (n = MaxGroups \/ ~ok) => Emit

\* ------------------------------------------------------------------ repairing the arguments
VARIABLE c
Str(s) == [x \in 1..Len(s) |-> SubSeq(s, x, x)]
Chars(s) == Str(s)
Paths == {Chars("C:\\a b\\"), Chars("C:\\ab\\"), Chars("C:\\a b"), Chars("ab"), Chars("C:\\a b c\\d"), Chars("\\\\s\\h\\")}
Opts == {Chars("-o"), Chars("-profile=off")}
Seqs(S, k) == [1..k -> S]
FixCase(as) == LET w == WinSplit(Line(as)) IN
   [k |-> "fix", line |-> Concat(Line(as)), args |-> [x \in DOMAIN w |-> Concat(w[x])], want |-> [x \in DOMAIN as |-> Concat(as[x])]]
InitFix == /\ \E k \in 0..MaxPaths : \E as \in Seqs(Paths \cup Opts, k) : c = FixCase(<<Chars("-compile")>> \o as)
           /\ o = 0 /\ args = 0 /\ used = 0 /\ ok = TRUE /\ n = 0
\* arguments that came through unharmed are left alone
InitSame == /\ \E k \in 0..MaxPaths : \E as \in Seqs({"-compile", "a b", "C:\\x\\", "-W", "q"}, k) : c = [k |-> "fix", line |-> "", args |-> as, want |-> as]
            /\ o = 0 /\ args = 0 /\ used = 0 /\ ok = TRUE /\ n = 0
NextNone == FALSE /\ UNCHANGED <<vars, c>>
InitO == Init /\ c = 0
NextO == Next /\ UNCHANGED c
EmitFix == PrintT("CASE " \o ToJson(c))
=============================================================================
