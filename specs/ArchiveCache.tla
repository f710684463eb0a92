---------------------------- MODULE ArchiveCache ----------------------------
(***************************************************************************)
(* D03.  The cached artifacts of one replay, or the cached data of one     *)
(* test run, between callers that may crash.                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Kind,     \* "replay" or "testrun"
          Types,    \* the artifacts that the server has
          Scopes,   \* what callers ask for
          Opts,     \* "none", "exclude", "best" (effort), "both", "softer" (other best-effort ones)
          Faults,   \* how a file may fail: "refused", "damaged"; how the API may: "api", "gone"; crashes: "crash", "marking"
          NC, MaxCalls, MaxFaults

Callers == 1..NC
VARIABLES disk,    \* per artifact "none", "good", "bad"
          marker,  \* the scope known to be there, or "none"
          ph,      \* per caller "idle", "wait", "hit", "one", "two", "files"
          sc, op,  \* what it asked for
          res,     \* how its last call ended
          eff,     \* the scope the working caller downloads
          kept,    \* the marker it found
          going,   \* the files being downloaded
          failed, swallowed,
          calls, faults,
          act
vars == <<disk, marker, ph, sc, op, res, eff, kept, going, failed, swallowed, calls, faults, act>>
View == <<disk, marker, ph, sc, op, res, eff, kept, going, failed, swallowed, calls, faults>>
Rec == [disk |-> disk, marker |-> marker, ph |-> ph, sc |-> sc, op |-> op, res |-> res, eff |-> eff, kept |-> kept, going |-> going, failed |-> failed, swallowed |-> swallowed, calls |-> calls, faults |-> faults]
Emit == PrintT("@@" \o ToJson(<<Rec, act', Rec', TLCGet("level")>>))

Shots == {"shots", "shotmeta"}
InScope(s, t) == CASE s = "everything" -> TRUE
                   [] s = "screenshots-only" -> t \in Shots
                   [] s = "timeline-only" -> t = "timeline"
                   [] s = "post-test-run-processing-files-only" -> t \in {"timeline", "mapped", "mjs"}
                   [] s = "post-process-including-unmapped-ranges" -> t \in {"timeline", "mapped", "mjs", "raw"}
                   [] s = "app-container-logs" -> t \in {"podA", "podB"}
                   [] s = "coverage-by-replay-pr-only" -> t = "byReplayPr"
                   [] s = "coverage-only" -> t \in {"coverage", "stats"}
                   [] s = "coverage-pr-only" -> t \in {"coveragePr", "statsPr"}
Late == {"podA", "podB"} \* fetched once everything else is there
Optional(o) == CASE o \in {"best", "both"} -> {"assets"} [] o = "softer" -> {"css", "mjs"} [] OTHER -> {}
Excludable(o) == IF o \in {"exclude", "both"} THEN {"mapped"} ELSE {}
Fails(t) == IF t \in {"shots", "podlog", "diff", "thumb"} THEN {"refused"} ELSE {"refused", "damaged"}

None == [t \in Types |-> FALSE]
Init == /\ disk = [t \in Types |-> "none"] /\ marker = "none" /\ ph = [c \in Callers |-> "idle"] /\ sc = [c \in Callers |-> "none"] /\ op = [c \in Callers |-> "none"] /\ res = [c \in Callers |-> "none"]
        /\ eff = "none" /\ kept = "none" /\ going = None /\ failed = FALSE /\ swallowed = FALSE /\ calls = 0 /\ faults = 0 /\ act = [n |-> "init"]

Working == \E c \in Callers : ph[c] \in {"hit", "one", "two", "files"}
Bypass(c) == op[c] # "none"

Call(c, s, o) ==
  /\ ph[c] = "idle" /\ calls < MaxCalls /\ \A d \in Callers : d < c => ph[d] # "idle"
  /\ ph' = [ph EXCEPT ![c] = "wait"] /\ sc' = [sc EXCEPT ![c] = s] /\ op' = [op EXCEPT ![c] = o] /\ res' = [res EXCEPT ![c] = "none"] /\ calls' = calls + 1
  /\ act' = [n |-> "call", c |-> c, s |-> s, o |-> o] /\ UNCHANGED <<disk, marker, eff, kept, going, failed, swallowed, faults>>

Covers(m, s) == m # "none" /\ (m = s \/ m = "everything")
Grant(c) ==
  /\ ph[c] = "wait" /\ ~Working /\ act' = [n |-> "grant", c |-> c] /\ UNCHANGED <<disk, marker, sc, op, going, calls, faults>>
  /\ failed' = FALSE /\ swallowed' = FALSE /\ kept' = marker
  /\ IF Covers(marker, sc[c]) /\ ~Bypass(c)
     THEN /\ eff' = sc[c]
          /\ IF Kind = "testrun" THEN ph' = [ph EXCEPT ![c] = "hit"] /\ UNCHANGED res
             ELSE ph' = [ph EXCEPT ![c] = "idle"] /\ res' = [res EXCEPT ![c] = "ok"]
     ELSE /\ ph' = [ph EXCEPT ![c] = IF Kind = "testrun" THEN "two" ELSE "one"] /\ UNCHANGED res
          /\ eff' = IF marker # "none" /\ ~Bypass(c) THEN "everything" ELSE sc[c]

Ends(c, r) == ph' = [ph EXCEPT ![c] = "idle"] /\ res' = [res EXCEPT ![c] = r]
(* a caller that has downloaded everything it was to *)
Succeeds(c, sw) ==
  /\ Ends(c, "ok")
  /\ marker' = IF ~Bypass(c) THEN eff ELSE IF sw THEN "none" ELSE kept
  
Need(c) == {t \in Types : InScope(eff, t) /\ t \notin Excludable(op[c]) /\ ~(t \in Shots /\ kept = "screenshots-only")}
Begin(n) == IF n \ Late # {} THEN n \ Late ELSE n

ApiOk(c) ==
  /\ ph[c] \in {"hit", "one", "two"} /\ act' = [n |-> "api", c |-> c] /\ UNCHANGED <<disk, sc, op, eff, kept, failed, swallowed, calls, faults>>
  /\ CASE ph[c] = "hit" -> Ends(c, "ok") /\ UNCHANGED <<marker, going>>
       [] ph[c] = "one" -> ph' = [ph EXCEPT ![c] = "two"] /\ UNCHANGED <<res, marker, going>>
       [] OTHER -> IF Need(c) = {} THEN Succeeds(c, FALSE) /\ UNCHANGED going
                   ELSE /\ ph' = [ph EXCEPT ![c] = "files"] /\ going' = [t \in Types |-> t \in Begin(Need(c))] /\ UNCHANGED res
                        \* what was there is about to be overwritten, except screenshots
                        /\ marker' = IF marker = "screenshots-only" THEN marker ELSE "none"
ApiFails(c, k) ==
  /\ ph[c] \in {"hit", "one", "two"} /\ k \in {"api", "gone"} /\ faults < MaxFaults /\ faults' = faults + 1 /\ Ends(c, "error")
  /\ act' = [n |-> "api-fails", c |-> c, k |-> k] /\ UNCHANGED <<disk, marker, sc, op, eff, kept, going, failed, swallowed, calls>>

(* t of caller c is over; d is the state of the artifacts afterwards *)
Over(c, t, fl, sw, d) ==
  LET rest == {u \in Types : going[u] /\ u # t}
      more == IF rest = {} /\ ~fl /\ t \notin Late THEN Need(c) \cap Late ELSE {} IN
  /\ disk' = d /\ failed' = fl /\ swallowed' = sw
  /\ going' = [u \in Types |-> u \in rest \cup more]
  /\ IF rest \cup more # {} THEN UNCHANGED <<ph, res, marker>>
     ELSE IF fl THEN Ends(c, "error") /\ UNCHANGED marker
     ELSE Succeeds(c, sw)
File(c, t, k) ==
  /\ ph[c] = "files" /\ going[t] /\ UNCHANGED <<sc, op, eff, kept, calls>> /\ act' = [n |-> "file", c |-> c, t |-> t, k |-> k]
  /\ \/ k = "ok" /\ Over(c, t, failed, swallowed, [disk EXCEPT ![t] = "good"]) /\ UNCHANGED faults
     \/ /\ k \in Fails(t) /\ faults < MaxFaults /\ faults' = faults + 1
        /\ LET soft == t \in Optional(op[c])
               d == IF k = "damaged" \/ t \in Late THEN [disk EXCEPT ![t] = "bad"] ELSE disk IN
           Over(c, t, failed \/ ~soft, swallowed \/ soft, d)

Crash(c) ==
  /\ ph[c] \in {"hit", "one", "two", "files"} /\ faults < MaxFaults /\ faults' = faults + 1 /\ act' = [n |-> "crash", c |-> c]
  /\ Ends(c, "crashed") /\ disk' = [t \in Types |-> IF going[t] THEN "bad" ELSE disk[t]] /\ going' = None
  /\ UNCHANGED <<marker, sc, op, eff, kept, failed, swallowed, calls>>
(* in the midst of noting that everything is there *)
CrashMarking(c, t) ==
  /\ ph[c] = "files" /\ going[t] /\ (\A u \in Types : going[u] => u = t) /\ ~failed /\ op[c] = "none" /\ faults < MaxFaults /\ faults' = faults + 1
  /\ (t \in Late \/ Need(c) \cap Late = {})
  /\ act' = [n |-> "marking", c |-> c, t |-> t] /\ Ends(c, "crashed") /\ disk' = [disk EXCEPT ![t] = "good"] /\ going' = None
  /\ UNCHANGED <<marker, sc, op, eff, kept, failed, swallowed, calls>>

Next == \E c \in Callers : \/ Grant(c) \/ ApiOk(c)
                           \/ \E s \in Scopes, o \in Opts : Call(c, s, o)
                           \/ \E k \in Faults : ApiFails(c, k)
                           \/ \E t \in Types : \E k \in Faults \cup {"ok"} : File(c, t, k)
                           \/ "crash" \in Faults /\ Crash(c)
                           \/ "marking" \in Faults /\ \E t \in Types : CrashMarking(c, t)
Spec == Init /\ [][Next]_vars

OneAtATime == Cardinality({c \in Callers : ph[c] \in {"hit", "one", "two", "files"}}) <= 1
(* what is known to be there is there *)
MarkerHolds == \A t \in Types : marker # "none" /\ InScope(marker, t) => disk[t] = "good"
(* success means that it is all there *)
SuccessIsComplete == [][\A c \in Callers : res'[c] = "ok" /\ res[c] # "ok" => \A t \in Types : InScope(sc[c], t) /\ t \notin Excludable(op[c]) \cup Optional(op[c]) => disk'[t] = "good"]_vars
(* a request for parts never makes the item complete *)
PartsDoNotComplete == [][\A c \in Callers : op[c] # "none" /\ ph[c] = "files" /\ ph'[c] = "idle" => marker' \in {"none", kept}]_vars
FailureReported == \A c \in Callers : ph[c] = "files" /\ failed => res[c] = "none"
=============================================================================
