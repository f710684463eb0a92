-------------------------- MODULE TunnelHandshake --------------------------
(***************************************************************************)
(* T02.  One connection of a tunnel: dialing (through a proxy or not),     *)
(* authenticating, and carrying requests; everything the other side may do *)
(* at each point.                                                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Kinds,   \* "socket": a connection by itself; "acking": one that acknowledges; "worker": the process that carries requests over it
          Routes,  \* "tls", "plain", "ptls", "pplain" (the latter two through a proxy)
          Proxies, \* what a proxy may say
          Answers, \* what a server may say to the credentials
          MaxMore

VARIABLES kind, route, ph, said, served, more, act
vars == <<kind, route, ph, said, served, more, act>>
View == <<kind, route, ph, said, served, more>>
Rec == [kind |-> kind, route |-> route, ph |-> ph, said |-> said, served |-> served, more |-> more]
Emit == PrintT("@@" \o ToJson(<<Rec, act', Rec', TLCGet("level")>>))

Proxied == route \in {"ptls", "pplain"}
Tls == route \in {"tls", "ptls"}
Init == /\ kind \in Kinds /\ route \in Routes /\ ph = (IF kind = "worker" THEN "idle" ELSE "dial") /\ said = "nothing" /\ served = 0 /\ more = 0 /\ act = [n |-> "init"]
\* a worker is told what to connect to; until then it waits, but not forever
Told == /\ ph = "idle" /\ ph' = "dial" /\ act' = [n |-> "told"] /\ UNCHANGED <<kind, route, said, served, more>>
Strange == /\ ph = "idle" /\ more < MaxMore /\ more' = more + 1 /\ act' = [n |-> "strange"] /\ UNCHANGED <<kind, route, ph, said, served>>
Untold == /\ ph = "idle" /\ ph' = "over" /\ act' = [n |-> "untold"] /\ UNCHANGED <<kind, route, said, served, more>>
Asks == ph' = "asked" /\ said' = "auth"
Connected ==
  /\ ph = "dial" /\ act' = [n |-> "connected"] /\ UNCHANGED <<kind, route, served, more>>
  /\ IF Proxied THEN ph' = "proxy" /\ UNCHANGED said ELSE IF Tls THEN ph' = "secure" /\ UNCHANGED said ELSE Asks
ProxySays(k) ==
  /\ ph = "proxy" /\ act' = [n |-> "proxy", k |-> k] /\ UNCHANGED <<kind, route, served, more>>
  /\ IF k \in {"established", "ok"} THEN (IF Tls THEN ph' = "secure" /\ UNCHANGED said ELSE Asks) ELSE ph' = "over" /\ UNCHANGED said
Secured == /\ ph = "secure" /\ Asks /\ act' = [n |-> "secured"] /\ UNCHANGED <<kind, route, served, more>>
Answer(k) ==
  /\ ph = "asked" /\ act' = [n |-> "answer", k |-> k] /\ UNCHANGED <<kind, route, served, more>>
  /\ IF k = "ok" THEN ph' = "open" /\ said' = (IF kind = "socket" THEN "auth" ELSE "ack") ELSE ph' = "over" /\ UNCHANGED said
Carry == /\ ph = "open" /\ more < MaxMore /\ more' = more + 1 /\ served' = served + 1 /\ act' = [n |-> "carry"] /\ UNCHANGED <<kind, route, ph, said>>
Fails(k) == /\ ph \in {"dial", "proxy", "secure", "asked", "open"} /\ (k = "refused" => ph = "dial") /\ (k = "certificate" => ph = "secure")
            /\ ph' = "over" /\ act' = [n |-> "fails", k |-> k] /\ UNCHANGED <<kind, route, said, served, more>>
\* nothing that comes afterwards revives a connection
Late == /\ ph = "over" /\ said = "auth" /\ more < MaxMore /\ more' = more + 1 /\ act' = [n |-> "late"] /\ UNCHANGED <<kind, route, ph, said, served>>
Next == Told \/ Strange \/ Untold \/ Connected \/ Secured \/ Carry \/ Late \/ (\E k \in Proxies : ProxySays(k)) \/ (\E k \in Answers : Answer(k)) \/ (\E k \in {"refused", "certificate", "reset", "closed"} : Fails(k))
Spec == Init /\ [][Next]_vars
OnlyAccepted == (served > 0 \/ ph = "open") => said \in {"auth", "ack"}
Final == [][ph = "over" => ph' = "over" /\ served' = served]_vars
NoSecretInClear == said # "nothing" /\ Tls => ph \notin {"dial", "proxy", "secure"}
=============================================================================
