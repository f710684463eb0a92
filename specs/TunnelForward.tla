--------------------------- MODULE TunnelForward ---------------------------
(***************************************************************************)
(* T01.  Requests that arrive over the connections of a tunnel, the        *)
(* servers they are forwarded to, and everything that may go wrong while   *)
(* they are.                                                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Confs,   \* "plain", "all" (all hosts proxied), "rewrite" (all hosts, but rewritten to the app), "https" (the app has https), "allhttps", "loose" (all hosts, any certificate)
          Names,   \* what the request says about the URL it was made for
          Verbs,   \* "get", "post", "slow" (its body is still being sent)
          Replies, \* how a server may answer
          NR, MaxDowns
Reqs == 1..NR
VARIABLES conf, down, downs, ph, name, verb, at, out, act
vars == <<conf, down, downs, ph, name, verb, at, out, act>>
View == <<conf, down, downs, ph, name, verb, at, out>>
Rec == [conf |-> conf, down |-> down, ph |-> ph, name |-> name, verb |-> verb, at |-> at, out |-> out]
Emit == PrintT("@@" \o ToJson(<<Rec, act', Rec', TLCGet("level")>>))

Init == /\ conf \in Confs /\ down = "none" /\ downs = 0 /\ ph = [r \in Reqs |-> "new"] /\ name = [r \in Reqs |-> "none"] /\ verb = [r \in Reqs |-> "get"]
        /\ at = [r \in Reqs |-> "nowhere"] /\ out = [r \in Reqs |-> "none"] /\ act = [n |-> "init"]
Everywhere == conf \in {"all", "allhttps", "loose"}
\* the own hosts of the tunnel, whatever the port; what names no host at all
Own == {"none", "self", "selfPort", "simulation", "junk"}
Target(n) == IF ~Everywhere \/ n \in Own THEN "local" ELSE n
Request(r, n, v) ==
  /\ ph[r] = "new" /\ (\A s \in Reqs : s < r => ph[s] # "new") /\ act' = [n |-> "request", r |-> r, name |-> n, verb |-> v]
  /\ name' = [name EXCEPT ![r] = n] /\ verb' = [verb EXCEPT ![r] = v] /\ at' = [at EXCEPT ![r] = Target(n)] /\ UNCHANGED <<conf, down, downs>>
  /\ IF (down = "local" /\ Target(n) = "local") \/ (down = "others" /\ Target(n) # "local") THEN ph' = [ph EXCEPT ![r] = "end"] /\ out' = [out EXCEPT ![r] = "bad"]
     ELSE ph' = [ph EXCEPT ![r] = IF v = "slow" THEN "sending" ELSE "sent"] /\ UNCHANGED out
Sent(r) == /\ ph[r] = "sending" /\ ph' = [ph EXCEPT ![r] = "sent"] /\ act' = [n |-> "sent", r |-> r] /\ UNCHANGED <<conf, down, downs, name, verb, at, out>>
\* An answer: in full, in part, not an answer at all, or one that cannot be passed on
Reply(r, k) ==
  /\ ph[r] \in {"sending", "sent"} /\ (ph[r] = "sending" => k \in {"break", "part"}) /\ act' = [n |-> "reply", r |-> r, k |-> k] /\ UNCHANGED <<conf, down, downs, name, verb, at>>
  /\ CASE k \in {"ok", "empty", "fails", "upgrade", "early"} -> ph' = [ph EXCEPT ![r] = "end"] /\ out' = [out EXCEPT ![r] = k]
       [] k = "part" -> ph' = [ph EXCEPT ![r] = IF ph[r] = "sending" THEN "both" ELSE "half"] /\ out' = [out EXCEPT ![r] = "part"]
       [] k \in {"odd", "switch", "garbage", "break"} -> ph' = [ph EXCEPT ![r] = "end"] /\ out' = [out EXCEPT ![r] = "bad"]
Rest(r) == /\ ph[r] = "half" /\ ph' = [ph EXCEPT ![r] = "end"] /\ out' = [out EXCEPT ![r] = "ok"] /\ act' = [n |-> "rest", r |-> r] /\ UNCHANGED <<conf, down, downs, name, verb, at>>
RestSent(r) == /\ ph[r] = "both" /\ ph' = [ph EXCEPT ![r] = "half"] /\ act' = [n |-> "sent", r |-> r] /\ UNCHANGED <<conf, down, downs, name, verb, at, out>>
\* what breaks after the answer began cannot be answered any more: it is cut short, and not passed off as complete
Break(r) == /\ ph[r] \in {"half", "both"} /\ ph' = [ph EXCEPT ![r] = "end"] /\ out' = [out EXCEPT ![r] = "cut"] /\ act' = [n |-> "break", r |-> r] /\ UNCHANGED <<conf, down, downs, name, verb, at>>
Cancel(r) == /\ ph[r] \in {"sending", "sent", "half", "both"} /\ ph' = [ph EXCEPT ![r] = "end"] /\ out' = [out EXCEPT ![r] = "gone"] /\ act' = [n |-> "cancel", r |-> r] /\ UNCHANGED <<conf, down, downs, name, verb, at>>
Down(w) == /\ down # w /\ downs < MaxDowns /\ downs' = downs + 1 /\ down' = w /\ act' = [n |-> "down", w |-> w] /\ (\E r \in Reqs : ph[r] = "new")
           /\ UNCHANGED <<conf, ph, name, verb, at, out>>
Next == \/ \E w \in {"none", "local", "others"} : Down(w)
        \/ \E r \in Reqs : \/ Sent(r) \/ Rest(r) \/ RestSent(r) \/ Break(r) \/ Cancel(r) \/ (\E n \in Names, v \in Verbs : Request(r, n, v)) \/ (\E k \in Replies : Reply(r, k))
Spec == Init /\ [][Next]_vars
OnlyLocal == ~Everywhere => \A r \in Reqs : at[r] \in {"nowhere", "local"}
NoLoop == \A r \in Reqs : at[r] \notin Own
Named == \A r \in Reqs : at[r] \in {"nowhere", "local", name[r]}
\* every request that was forwarded in vain has its answer
Answered == \A r \in Reqs : ph[r] = "end" => out[r] \notin {"none", "part"}
Unaffected == [][Cardinality({r \in Reqs : out'[r] # out[r] \/ at'[r] # at[r] \/ ph'[r] # ph[r]}) <= 1]_vars
=============================================================================
