---------------------------- MODULE EdgeRequest ----------------------------
(***************************************************************************)
(* E02.  One request through a wrapped worker: what the caller gets, what  *)
(* the app sees, and what is reported, for every configuration, app        *)
(* outcome, order of outbound calls and behaviour of the recorder sidecar. *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Wraps, Sides, Waits, Reaches, Kinds, \* configurations
          Endings,    \* ways in which the app may end
          Vias,       \* what outbound calls go through
          Results,    \* how outbound calls end
          MaxCalls, MaxLen

VARIABLES cfg, app, ending, calls, captured, sent, closed, len, act
vars == <<cfg, app, ending, calls, captured, sent, closed, len, act>>
Rec == [cfg |-> cfg, app |-> app, ending |-> ending, calls |-> calls, captured |-> captured, sent |-> sent, closed |-> closed]
View == <<cfg, app, ending, calls, captured, sent, closed>>
Emit == PrintT("@@" \o ToJson(<<Rec, act', Rec', TLCGet("level")>>))

Recording == cfg.side \in {"envUrl", "envBinding", "optUrl", "optBinding", "both"}
(* calls through these are recorded; assets, skipped bindings and the sidecar's own are not *)
Recorded(v) == Recording /\ v \in {"fetch", "service", "kv"}

Init == /\ cfg \in [wrap : Wraps, side : Sides, wait : Waits, reach : Reaches, kind : Kinds]
        /\ (Recording \/ cfg.reach = "ok")
        /\ app = "idle" /\ ending = "none" /\ calls = <<>> /\ captured = <<>> /\ sent = <<>> /\ closed = FALSE
        /\ len = 0 /\ act = [n |-> "init"]

(* the batch is sent once the app is done and no body is being read any more *)
Settle(a, cs, cap, snt, cl) ==
  LET busy == \E i \in DOMAIN cs : Recorded(cs[i].via) /\ cs[i].st = "body"
      over == a \in {"returned", "threw"}
  IN IF cl THEN /\ captured' = <<>> /\ sent' = snt \o cap /\ closed' = TRUE
     ELSE IF over /\ ~busy THEN /\ captured' = <<>> /\ sent' = snt \o cap /\ closed' = TRUE
     ELSE /\ captured' = cap /\ sent' = snt /\ closed' = FALSE

Step(a) == len < MaxLen /\ len' = len + 1 /\ act' = a /\ UNCHANGED cfg

Throws(e) == e \in {"throwError", "throwString", "throwWeird", "rejectError"}
(* the app is invoked: it may answer at once *)
Start(e) ==
  /\ Step([n |-> "start", e |-> e]) /\ app = "idle" /\ UNCHANGED calls
  /\ IF e = "wait" THEN app' = "running" /\ ending' = "none" /\ UNCHANGED <<captured, sent, closed>>
     ELSE /\ app' = (IF Throws(e) THEN "threw" ELSE "returned") /\ ending' = e
          /\ Settle(app', calls, IF Recording THEN Append(captured, [kind |-> "inbound", how |-> e]) ELSE captured, sent, closed)
End(e) ==
  /\ Step([n |-> "end", e |-> e]) /\ app = "running"
  /\ app' = (IF Throws(e) THEN "threw" ELSE "returned") /\ ending' = e /\ UNCHANGED calls
  /\ Settle(app', calls, IF Recording THEN Append(captured, [kind |-> "inbound", how |-> e]) ELSE captured, sent, closed)
(* an outbound call, from the handler or from work it left running *)
Call(v) ==
  /\ Step([n |-> "call", via |-> v]) /\ app # "idle" /\ Len(calls) < MaxCalls
  /\ calls' = Append(calls, [via |-> v, st |-> "flight", how |-> "none"])
  /\ UNCHANGED <<app, ending, captured, sent, closed>>
(* it is answered: with a body that goes on, or fails *)
Answer(i, r) ==
  /\ Step([n |-> "answer", i |-> i, r |-> r]) /\ calls[i].st = "flight"
  /\ (calls[i].via = "kv" => r \in {"ok", "reject", "rejectWeird"})
  /\ calls' = [calls EXCEPT ![i].st = IF r \in {"reject", "rejectWeird"} \/ calls[i].via = "kv" \/ r = "empty" THEN "done" ELSE "body", ![i].how = r]
  /\ UNCHANGED <<app, ending>>
  /\ LET direct == Recorded(calls[i].via) /\ calls'[i].st = "done"
     IN Settle(app, calls', IF direct THEN Append(captured, [kind |-> calls[i].via, how |-> r, i |-> i]) ELSE captured, sent, closed)
BodyEnd(i, ok) ==
  /\ Step([n |-> "bodyEnd", i |-> i, ok |-> ok]) /\ calls[i].st = "body"
  /\ calls' = [calls EXCEPT ![i].st = "done", ![i].how = IF ok THEN @ ELSE @ \o "Broken"]
  /\ UNCHANGED <<app, ending>>
  /\ Settle(app, calls', IF Recorded(calls[i].via) THEN Append(captured, [kind |-> calls[i].via, how |-> calls'[i].how, i |-> i]) ELSE captured, sent, closed)

Next == \/ \E e \in Endings \cup {"wait"} : Start(e)
        \/ \E e \in Endings : End(e)
        \/ \E v \in Vias : Call(v)
        \/ \E i \in DOMAIN calls : \/ \E r \in Results : Answer(i, r)
                                   \/ \E ok \in BOOLEAN : BodyEnd(i, ok)
Spec == Init /\ [][Next]_vars

Inbound(q) == {k \in DOMAIN q : q[k].kind = "inbound"}
ReportedOnce == LET all == sent \o captured IN Cardinality(Inbound(all)) = IF Recording /\ app \in {"returned", "threw"} THEN 1 ELSE 0
TrueOutcome == LET all == sent \o captured IN \A k \in Inbound(all) : all[k].how = ending
NothingWithoutConfiguration == ~Recording => sent = <<>> /\ captured = <<>>
EveryCallReported ==
  LET all == sent \o captured IN
  \A i \in DOMAIN calls : Recorded(calls[i].via) /\ calls[i].st = "done" =>
    Cardinality({k \in DOMAIN all : all[k].kind # "inbound" /\ all[k].i = i /\ all[k].how = calls[i].how}) = 1
SentAtRest == (app \in {"returned", "threw"} /\ \A i \in DOMAIN calls : calls[i].st # "body") => captured = <<>>
=============================================================================
