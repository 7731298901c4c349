------------------------------- MODULE GenScc -------------------------------
(* Histories of an installation, and what the user relies on in them. *)
EXTENDS RsScc, Json
CONSTANT Steps
VARIABLES s, game, hist, last
vars == <<s, game, hist, last>>
Cfgs == [dir : Dirs, out : {"", "O"}]
Done(a, s2, res) == s' = s2 /\ hist' = Append(hist, [act |-> a, res |-> res, seen |-> Seen(s2)])
Ran(cfg, mods) == LET r == TLCEval(Compile(s, cfg, mods)) IN Done([a |-> "compile", dir |-> cfg.dir, out |-> cfg.out, mods |-> mods], Now(r), r.err) /\ last' = [cfg |-> cfg, mods |-> mods, err |-> r.err, from |-> s] /\ UNCHANGED game
Updated(v) == Done([a |-> "put", p |-> Final("D"), c |-> v], Update(s, v), "") /\ game' = v /\ last' = <<>>
Removed(p) == Done([a |-> "remove", p |-> p], Remove(s, p), "") /\ UNCHANGED game /\ last' = <<>>
Init == s \in {Fresh, Old} /\ game = "1" /\ last = <<>> /\ hist = << [act |-> [a |-> "start", old |-> s = Old], res |-> "", seen |-> Seen(s)] >>
There(p) == IF p \in Stamps THEN s.ts[p] # NoFile ELSE s.has[p] # None
\* anything may happen
Next == /\ Len(hist) <= Steps
        /\ \/ \E cfg \in Cfgs, mods \in {"", "a", "!"} : Ran(cfg, mods)
           \/ \E v \in {"1", "2"} : Updated(v)
           \/ \E p \in Bundles \cup Stamps : There(p) /\ Removed(p)
           \/ Done([a |-> "put", p |-> Final("C"), c |-> "3"], Put(s, Final("C"), "3"), "") /\ UNCHANGED game /\ last' = <<>>
EmitHist == Len(hist) = Steps + 1 => PrintT("CASE " \o ToJson([k |-> "scc", hist |-> hist]))
\* the history goes on with a run that stops, and another one
Stopped(cfg, mods, then) ==
  LET r == TLCEval(Compile(s, cfg, mods))
      next(n) == LET q == TLCEval(Compile(r.states[n], cfg, then)) IN [seen |-> Seen(r.states[n]), res |-> q.err, then |-> Seen(Now(q))]
  IN PrintT("CASE " \o ToJson([k |-> "stops", hist |-> hist, act |-> [dir |-> cfg.dir, out |-> cfg.out, mods |-> mods], res |-> r.err, then |-> then, outcomes |-> [n \in DOMAIN r.states |-> next(n)]]))
EmitStops == Len(hist) = Steps + 1 => \A cfg \in Cfgs, mods \in {"a", "!"}, then \in {"b"} : Stopped(cfg, mods, then)
\* ---------------------------------------------------------------- one user, who does not delete files: what she relies on
CONSTANT Clock
Mine(cfg) == [dir |-> "D", out |-> cfg]
Step(s2) == s' = s2 /\ hist' = <<>>
InitU == Init /\ s = Fresh
NextU(out) == \/ \E mods \in {"", "a", "!"} : LET r == TLCEval(Compile(s, Mine(out), mods)) IN Step(Now(r)) /\ last' = [mods |-> mods, err |-> r.err, from |-> s, out |-> IF out = "" THEN Final("D") ELSE out] /\ UNCHANGED game
              \/ \E v \in Versions : Step(Update(s, v)) /\ game' = v /\ last' = <<>>
NextSame == NextU("")
NextSeparate == NextU("O")
\* or switches between the two
NextBoth == NextSame \/ NextSeparate
\* and whose machine may stop in the middle of a run
Stops(out) == \E mods \in {"", "a"} : LET r == TLCEval(Compile(s, Mine(out), mods)) IN \E n \in 1..(Len(r.states) - 1) : Step(r.states[n]) /\ last' = <<>> /\ UNCHANGED game
NextStops == NextSame \/ Stops("")
Bound == s.clock < Clock
Ended == last # <<>>
\* a run says what it did: what compiles is in the output, on top of the game's own scripts of today; what does not compile changes neither bundle nor output
Works == Ended => IF last.mods = "!" THEN last.err = "rejected" /\ s.has[last.out] = last.from.has[last.out]
                  ELSE last.err = "" /\ s.has[last.out] = Compiled(game, last.mods)
\* the game's own scripts are never lost
Kept == s.has[Final("D")] = game \/ s.has[Backup("D")] = game
\* (after a stop nobody can tell a new game version from a bundle half written, hence only while the game stays the same)
NextStopsOnly == (\E mods \in {"", "a", "!"} : LET r == TLCEval(Compile(s, Mine(""), mods)) IN Step(Now(r)) /\ last' = [mods |-> mods, err |-> r.err, from |-> s, out |-> Final("D")] /\ UNCHANGED game) \/ Stops("")
=============================================================================
