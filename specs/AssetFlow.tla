----------------------------- MODULE AssetFlow -----------------------------
(***************************************************************************)
(* U02.  The upload protocols of the launcher: what is requested, put and  *)
(* reported, in which order, and what happens when a step fails.  A flow   *)
(* is a sequence of stages; the calls of a stage run side by side, and the *)
(* next stage starts once all of them have succeeded.                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Flows, Diffs, Projects, Companions, Previous, Extras, MaxHic

VARIABLES flow,
          opt,     \* [diff, project, companion, prev, extra]
          at,      \* the stage
          st,      \* what has become of its calls: "open", "ok", "failed"
          hic,     \* passing failures so far
          out,     \* "pending", "ok", "failed"
          act
vars == <<flow, opt, at, st, hic, out, act>>
View == <<flow, opt, at, st, hic, out>>

Dir(o) == <<<<"mp-request">>, <<"tar">>, <<"part-put">>>>
Zip == <<<<"zip-request">>, <<"zip-put">>>>
Image == <<<<"ping">>, <<"inspect">>, <<"registry">>, <<"tag">>, <<"push">>>>
Diff(o) == IF o.diff THEN <<<<"diff-request">>, <<"diff-put">>>> ELSE <<>>
Companion(o) == CASE o.companion = "none" -> <<>>
                  [] o.companion = "folder" -> Dir(o) \o <<<<"complete">>>>
                  [] o.companion = "zip" -> Zip \o <<<<"complete">>>>
                  [] o.companion = "path" -> <<<<"container">>, <<"archive">>>> \o Dir(o) \o <<<<"complete">>>>
Stages(f, o) ==
  CASE f = "chunk" -> <<<<"chunk-archive">>, <<"chunk-request">>, <<"chunk-tar", "chunk-index">>, <<"chunk-complete">>>>
    [] f \in {"dir", "stream"} -> Dir(o) \o Diff(o) \o <<<<"complete">>>>
    [] f = "zip" -> Zip \o Diff(o) \o <<<<"complete">>>>
    [] f = "buildDir" -> Dir(o) \o <<<<"register-assets">>>>
    [] f = "buildZip" -> Zip \o <<<<"register-assets">>>>
    [] f = "buildImage" -> Image \o <<<<"register-image">>>>
    [] f = "chunksRun" -> <<<<"create">>>> \o Diff(o) \o <<<<"trigger-chunks">>>>
    [] f = "agentRun" -> (IF o.diff THEN <<<<"agent-diff">>, <<"diff-put">>>> ELSE <<>>) \o <<<<"agent-trigger">>>>
    [] f = "image" -> Image \o Diff(o) \o Companion(o) \o <<<<"complete-image">>>>
    [] f = "sessionsImage" -> Image \o (IF o.extra THEN <<<<"instr-request">>, <<"instr-put">>>> ELSE <<>>) \o <<<<"generate">>>>
    [] f = "sessionsDir" -> Dir(o) \o <<<<"register-assets">>>> \o (IF o.extra THEN <<<<"instr-request">>, <<"instr-put">>>> ELSE <<>>) \o <<<<"generate">>>>

Rec == [flow |-> flow, opt |-> opt, at |-> at, st |-> st, hic |-> hic, out |-> out, stage |-> (IF out = "ok" THEN <<>> ELSE Stages(flow, opt)[at])]
Emit == PrintT("@@" \o ToJson(<<Rec, act', Rec', TLCGet("level")>>))
Open(s) == [i \in DOMAIN s |-> "open"]
Opts == [diff : Diffs, project : Projects, companion : Companions, prev : Previous, extra : Extras]
Init == /\ flow \in Flows /\ opt \in Opts
        /\ (flow \notin {"image"} => opt.companion = "none") /\ (flow # "chunk" => opt.prev = "new")
        /\ at = 1 /\ st = Open(Stages(flow, opt)[1]) /\ hic = 0 /\ out = "pending" /\ act = [n |-> "init"]
S == Stages(flow, opt)
Calls == S[at]
Mayfail == {"ping", "inspect", "container", "archive", "chunk-archive", "tar", "tag"} \* steps outside of the network have no passing failures

Advance(st2) ==
  IF \A i \in DOMAIN st2 : st2[i] = "ok"
  THEN IF at = Len(S) THEN out' = "ok" /\ at' = at /\ st' = st2
       ELSE out' = out /\ at' = at + 1 /\ st' = Open(S[at + 1])
  ELSE out' = out /\ at' = at /\ st' = st2
Ok(i) == /\ out = "pending" /\ st[i] = "open" /\ act' = [n |-> "ok", call |-> Calls[i]] /\ Advance([st EXCEPT ![i] = "ok"]) /\ UNCHANGED <<flow, opt, hic>>
Fail(i) == /\ out = "pending" /\ st[i] = "open" /\ act' = [n |-> "fail", call |-> Calls[i]] /\ st' = [st EXCEPT ![i] = "failed"] /\ out' = "failed" /\ UNCHANGED <<flow, opt, hic, at>>
Hiccup(i, k) == /\ out = "pending" /\ st[i] = "open" /\ hic < MaxHic /\ Calls[i] \notin Mayfail
                /\ act' = [n |-> "hiccup", call |-> Calls[i], kind |-> k] /\ hic' = hic + 1 /\ UNCHANGED <<flow, opt, at, st, out>>
(* the server has the chunk already *)
Already == /\ out = "pending" /\ Calls[1] = "chunk-request" /\ act' = [n |-> "already", call |-> "chunk-request"] /\ out' = "ok" /\ UNCHANGED <<flow, opt, at, st, hic>>
(* nothing was created, so nothing is triggered *)
Dry == /\ out = "pending" /\ Calls[1] = "create" /\ act' = [n |-> "dry", call |-> "create"] /\ out' = "ok" /\ UNCHANGED <<flow, opt, at, st, hic>>
(* a success without a test run is an error of the agent's trigger *)
NoRun == /\ out = "pending" /\ Calls[1] = "agent-trigger" /\ act' = [n |-> "norun", call |-> "agent-trigger"] /\ out' = "failed" /\ UNCHANGED <<flow, opt, at, st, hic>>
Next == (\E i \in DOMAIN st : Ok(i) \/ Fail(i) \/ \E k \in {"status", "network"} : Hiccup(i, k)) \/ Already \/ Dry \/ NoRun
Spec == Init /\ [][Next]_vars

(* what declares something complete, or starts a run, is always last, and is the only such call of the flow but for
   the companion assets' and the asset build's own *)
Final == {"chunk-complete", "complete", "register-assets", "register-image", "trigger-chunks", "agent-trigger", "complete-image", "generate"}
Put == {"zip-put", "part-put", "chunk-tar", "chunk-index", "push", "diff-put", "instr-put"}
FinalIsLast == /\ \E i \in DOMAIN S[Len(S)] : S[Len(S)][i] \in Final
               /\ \A j \in DOMAIN S : j < Len(S) /\ (\E i \in DOMAIN S[j] : S[j][i] \in Final) => \E k \in 1..j : \E i \in DOMAIN S[k] : S[k][i] \in Put
NothingAfterFailure == [][out = "failed" => UNCHANGED <<at, st, out>>]_vars
OnlyWhenAllOk == [][at' > at => \A i \in DOMAIN st : i \in DOMAIN st => st[i] = "ok" \/ (act'.n = "ok" /\ act'.call = Calls[i])]_vars
=============================================================================
