------------------------------- MODULE GitRun -------------------------------
(***************************************************************************)
(* G01.  A clone and its origin: commits on the default branch (also by    *)
(* others) and on a topic branch, merges in both directions, checkouts,    *)
(* edits, staging, untracked files.  At any point the tool is asked which  *)
(* commit a run is of, what it is compared with and by which diff.         *)
(*                                                                         *)
(* A tree is two files: m, changed by upstream commits, and t, changed     *)
(* here; what a file contains is a number.                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Defaults,  \* the default branch's name: "main", "master", "trunk"
          Knowns,    \* how it is known: "symref", "remote" (the origin tells), "no" (nor does the origin answer), "stale" (known, but the origin does not answer)
          Wheres,    \* the tool runs in: "root", "sub"
          Topics,    \* the topic branch's name
          Repos,     \* "clone", "none" (no repository), "unborn" (no commit yet)
          Bigs,      \* whether the files are big
          Confs,     \* how the user has configured git to show diffs, which must not matter
          Asks,      \* what the tool is asked
          Files,     \* kinds of untracked files: "inside" and "outside" of where the tool runs, "ignored", "many"
          Acts,      \* "upstream", "upmerge", "commit", "branch", "def", "detach", "merge", "fetch", "edit", "stage", "revert", "untrack"
          Resume,    \* whether histories go on after it was asked
          MaxCommits, MaxSteps

VARIABLES cfg, C, rem, org, loc, top, at, hc, wt, ix, v, unt, steps, res, act
vars == <<cfg, C, rem, org, loc, top, at, hc, wt, ix, v, unt, steps, res, act>>
View == <<cfg, C, rem, org, loc, top, at, hc, wt, ix, v, unt, steps, res>>
Rec == [cfg |-> cfg, c |-> C, rem |-> rem, org |-> org, loc |-> loc, top |-> top, at |-> at, hc |-> hc, wt |-> wt, ix |-> ix, v |-> v, unt |-> unt, steps |-> steps, res |-> res]
Emit == PrintT("@@" \o ToJson(<<Rec, act', Rec', TLCGet("level")>>))

RECURSIVE Anc(_)
Anc(c) == {c} \cup UNION {Anc(C[c].p[i]) : i \in DOMAIN C[c].p}
Best(S) == {c \in S : \A d \in S : d # c => c \notin Anc(d)}
Sorted(S) == LET F[n \in 0..Len(C)] == IF n = 0 THEN <<>> ELSE IF n \in S THEN Append(F[n - 1], n) ELSE F[n - 1] IN F[Len(C)]
Reach == cfg.known \in {"symref", "remote"}
Clean == wt = C[hc].t /\ ix = C[hc].t
Untracked == unt.inside \/ unt.outside \/ unt.many
Pending == [q |-> "none"]

Init ==
  /\ cfg \in [def : Defaults, known : Knowns, where : Wheres, topic : Topics, repo : Repos, big : Bigs, conf : Confs] /\ (cfg.topic # cfg.def)
  /\ (cfg.repo # "clone" => (cfg.known = "symref" /\ cfg.def = "main"))
  /\ C = <<[p |-> <<>>, m |-> 0, t |-> 0]>> /\ rem = 1 /\ org = 1 /\ loc = 1 /\ top = 0 /\ at = "def" /\ hc = 1
  /\ wt = 0 /\ ix = 0 /\ v = 0 /\ unt = [inside |-> FALSE, outside |-> FALSE, ignored |-> FALSE, many |-> FALSE] /\ steps = 0 /\ res = Pending /\ act = [n |-> "init"]

May(a) == (Resume \/ res = Pending) /\ a \in Acts /\ cfg.repo = "clone" /\ steps < MaxSteps /\ steps' = steps + 1 /\ res' = Pending /\ act' = [n |-> a] /\ UNCHANGED cfg
New(ps, m, t) == Len(C) < MaxCommits /\ C' = Append(C, [p |-> ps, m |-> m, t |-> t])
(* where HEAD is goes along with the branch it is on *)
Goes(c) == hc' = c /\ loc' = (IF at = "def" THEN c ELSE loc) /\ top' = (IF at = "topic" THEN c ELSE top)

Upstream == May("upstream") /\ New(<<rem>>, v + 1, C[rem].t) /\ v' = v + 1 /\ rem' = Len(C) + 1 /\ UNCHANGED <<org, loc, top, at, hc, wt, ix, unt>>
Max(a, b) == IF a < b THEN b ELSE a
(* others merge the topic branch *)
UpMerge == May("upmerge") /\ top # 0 /\ top \notin Anc(rem) /\ New(<<rem, top>>, Max(C[rem].m, C[top].m), Max(C[rem].t, C[top].t)) /\ rem' = Len(C) + 1 /\ UNCHANGED <<org, loc, top, at, hc, wt, ix, v, unt>>
(* everything is committed *)
Commit == May("commit") /\ ~Clean /\ wt # C[hc].t /\ New(<<hc>>, C[hc].m, wt) /\ Goes(Len(C) + 1) /\ ix' = wt /\ UNCHANGED <<rem, org, at, wt, v, unt>>
Branch == May("branch") /\ top = 0 /\ top' = hc /\ at' = "topic" /\ UNCHANGED <<C, rem, org, loc, hc, wt, ix, v, unt>>
To(a, c) == Clean /\ at' = a /\ hc' = c /\ wt' = C[c].t /\ ix' = C[c].t /\ UNCHANGED <<C, rem, org, loc, top, v, unt>>
Def == May("def") /\ at # "def" /\ To("def", loc)
Detach == May("detach") /\ at # "detached" /\ To("detached", hc)
Merge == May("merge") /\ at = "topic" /\ Clean /\ org \notin Anc(hc) /\ hc \notin Anc(org)
         /\ New(<<hc, org>>, Max(C[hc].m, C[org].m), Max(C[hc].t, C[org].t)) /\ Goes(Len(C) + 1) /\ wt' = Max(C[hc].t, C[org].t) /\ ix' = wt' /\ UNCHANGED <<rem, org, at, v, unt>>
Fetch == May("fetch") /\ Reach /\ org # rem /\ org' = rem /\ UNCHANGED <<C, rem, loc, top, at, hc, wt, ix, v, unt>>
Edit == May("edit") /\ v' = v + 1 /\ wt' = v + 1 /\ UNCHANGED <<C, rem, org, loc, top, at, hc, ix, unt>>
Stage == May("stage") /\ ix # wt /\ ix' = wt /\ UNCHANGED <<C, rem, org, loc, top, at, hc, wt, v, unt>>
(* what was staged stays so *)
Revert == May("revert") /\ wt # C[hc].t /\ wt' = C[hc].t /\ UNCHANGED <<C, rem, org, loc, top, at, hc, ix, v, unt>>
Untrack(f) == /\ (Resume \/ res = Pending) /\ "untrack" \in Acts /\ cfg.repo = "clone" /\ steps < MaxSteps /\ steps' = steps + 1 /\ res' = Pending /\ act' = [n |-> "untrack", f |-> f] /\ ~unt[f]
              /\ unt' = [unt EXCEPT ![f] = TRUE] /\ UNCHANGED <<cfg, C, rem, org, loc, top, at, hc, wt, ix, v>>

(* the base: HEAD itself on the default branch or on none, else what HEAD shares with the origin's default branch *)
NameIsDefault == IF cfg.known = "no" THEN (IF at = "def" THEN cfg.def ELSE cfg.topic) \in {"main", "master"} ELSE at = "def"
NewOrg == IF Reach THEN rem ELSE org
Bases == IF cfg.repo # "clone" THEN {} ELSE IF at = "detached" \/ NameIsDefault THEN {hc}
         ELSE IF cfg.known = "no" /\ cfg.def = "trunk" THEN {} ELSE Best(Anc(NewOrg) \cap Anc(hc))
Tree(m, t) == <<m, t>>
Refused(q, why) == [q |-> q, ok |-> FALSE, why |-> why]
HeadTree == Tree(C[hc].m, C[hc].t)
Answer(q) ==
  LET dirty == cfg.repo = "clone" /\ ~Clean
      wtree == Tree(C[hc].m, wt)
      bases == Sorted(Bases)
      no == cfg.repo # "clone"
  IN CASE q = "given" -> [q |-> q, ok |-> TRUE]
       [] q = "build" -> IF Untracked THEN Refused(q, "untracked") ELSE IF no THEN Refused(q, "head")
                         ELSE IF dirty THEN [q |-> q, ok |-> TRUE, of |-> 0, tree |-> wtree] ELSE [q |-> q, ok |-> TRUE, of |-> hc, tree |-> HeadTree]
       [] q = "lookup" -> IF dirty THEN Refused(q, "dirty") ELSE IF no THEN Refused(q, "head") ELSE [q |-> q, ok |-> TRUE, of |-> hc, tree |-> HeadTree]
       [] q = "compare" -> IF Untracked THEN Refused(q, "untracked") ELSE IF Bases = {} THEN Refused(q, "base")
                           ELSE [q |-> q, ok |-> TRUE, of |-> IF dirty THEN 0 ELSE hc, base |-> bases, tree |-> IF dirty THEN wtree ELSE HeadTree]
       [] q = "compareHead" -> \* the head is given
                           IF Bases = {} THEN Refused(q, "base") ELSE [q |-> q, ok |-> TRUE, of |-> hc, base |-> bases, tree |-> HeadTree]
       [] q = "compareBase" -> \* the base, the first commit, is given
                           IF Untracked THEN Refused(q, "untracked") ELSE IF no THEN Refused(q, "head")
                           ELSE [q |-> q, ok |-> TRUE, of |-> IF dirty THEN 0 ELSE hc, base |-> <<1>>, tree |-> IF dirty THEN wtree ELSE HeadTree]
       [] q = "ci" -> IF no THEN Refused(q, "exit") ELSE IF Bases = {} THEN Refused(q, "exit") ELSE [q |-> q, ok |-> TRUE, of |-> hc, base |-> bases, tree |-> IF dirty THEN wtree ELSE HeadTree]
Ask(q) ==
  /\ res = Pending /\ act' = [n |-> "ask", q |-> q] /\ res' = Answer(q)
  \* to learn the base the origin is asked
  /\ org' = (IF cfg.repo = "clone" /\ (q \in {"ci", "compareHead"} \/ (q = "compare" /\ ~Untracked)) THEN NewOrg ELSE org)
  /\ UNCHANGED <<cfg, C, rem, loc, top, at, hc, wt, ix, v, unt, steps>>

Next == \/ Upstream \/ UpMerge \/ Commit \/ Branch \/ Def \/ Detach \/ Merge \/ Fetch \/ Edit \/ Stage \/ Revert
        \/ (\E f \in Files : Untrack(f)) \/ (\E q \in Asks : Ask(q))
Spec == Init /\ [][Next]_vars

Answered == res # Pending /\ res.ok /\ res.q # "given"
FaithfulCommit == (Answered /\ res.of = 0) => ~Clean
NothingLeftOut == (Answered /\ res.q \in {"build", "compare", "compareBase"}) => (~Untracked /\ res.tree = Tree(C[hc].m, wt))
BaseIsShared == (Answered /\ res.q \in {"compare", "compareHead", "ci"}) => \A i \in DOMAIN res.base : res.base[i] \in Anc(hc) /\ (res.base[i] = hc \/ res.base[i] \in Anc(org))
AskingChangesNothing == [][act'.n = "ask" => UNCHANGED <<C, rem, loc, top, at, hc, wt, ix, unt>>]_vars
=============================================================================
