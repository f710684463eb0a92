--------------------------- MODULE EdgeSessionId ---------------------------
(***************************************************************************)
(* E06.  When a backend mints a session id, what is recorded under it and  *)
(* how it is published, as a decision over the request, the configuration  *)
(* and the response of the app, for one or two requests.                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Methods, Dests, Accepts, Inbounds, Options, Envs, Modes, Responses, MaxRequests

VARIABLES cfg, served, act
vars == <<cfg, served, act>>
Rec == [cfg |-> cfg, served |-> served]
View == <<cfg, served>>
Emit == PrintT("@@" \o ToJson(<<Rec, act', Rec', TLCGet("level")>>))

Init == /\ cfg \in [method : Methods, dest : Dests, accept : Accepts, inbound : Inbounds, option : Options, env : Envs, mode : Modes, response : Responses]
        /\ (cfg.mode = "replay" => cfg.inbound = "some")
        /\ served = <<>> /\ act = [n |-> "init"]

Recording(c) == c.mode \in {"url", "binding", "pages"}
Enabled(c) == IF c.option # "absent" THEN c.option = "true" ELSE c.env # "false"
Document(c) == IF c.dest # "absent" THEN c.dest = "document" ELSE c.accept \in {"html", "mixed", "browser"}
Navigation(c) == c.method \in {"GET", "HEAD"} /\ Document(c)
Mints(c) == Recording(c) /\ Enabled(c) /\ c.inbound = "absent" /\ Navigation(c)
(* a socket's response cannot carry headers of ours when its headers are fixed *)
Publishable(c) == c.response \notin {"throws", "socketFixed"}

(* id under which the request's events are recorded, and what the app is told it is *)
Own(c, k) == IF c.mode = "off" THEN "none" ELSE IF c.inbound # "absent" THEN c.inbound ELSE IF Mints(c) THEN "minted" ELSE "none"
Serve ==
  /\ Len(served) < MaxRequests
  /\ act' = [n |-> "serve"]
  /\ served' = Append(served, [told |-> Own(cfg, 1), recorded |-> IF Recording(cfg) THEN Own(cfg, 1) ELSE "nothing",
                              origin |-> Mints(cfg), published |-> Mints(cfg) /\ Publishable(cfg)])
  /\ UNCHANGED cfg
Next == Serve
Spec == Init /\ [][Next]_vars

OnlyNavigations == \A k \in DOMAIN served : served[k].origin => Recording(cfg) /\ cfg.inbound = "absent" /\ cfg.method \in {"GET", "HEAD"} /\ cfg.option # "false"
PublishedIsRecorded == \A k \in DOMAIN served : served[k].published => served[k].recorded = "minted"
InboundWins == \A k \in DOMAIN served : cfg.inbound # "absent" /\ Recording(cfg) => served[k].recorded = cfg.inbound
=============================================================================
