----------------------------- MODULE EdgeSpans -----------------------------
(***************************************************************************)
(* S04.  What is uploaded for each reported event: one span that says what *)
(* the event said, in its request's trace, without credentials.  An event  *)
(* is put together from a plain one of its kind by up to MaxDev changes;   *)
(* reports are drained in chunks.                                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Kinds, Urls, Statuses, Errors, Heads, Bodies, Sessions, Origins, Ids, Times, Names, Ops, Keys, Omits, Modes, Texts,
          MaxDev, Requests, MaxEvents, MaxFlushes

VARIABLES evs,      \* events reported: records of what was chosen
          flushed,  \* how many of them had been reported at each drain
          devs, act
vars == <<evs, flushed, devs, act>>
View == <<evs, flushed, devs>>

Plain(k, r) == [kind |-> k, req |-> r, url |-> "plain", status |-> "200", err |-> "none", head |-> "type", body |-> "none", session |-> "set", origin |-> "none", ids |-> "both", time |-> "usual",
                name |-> "set", op |-> "get", key |-> "set", omit |-> "none", mode |-> "", text |-> "select"]

Http(e) == e.kind \in {"inbound", "outbound", "binding"}
Client(e) == e.kind # "inbound"
Parses(u) == u \notin {"relative", "relativeQuery", "noUrl"}
HasQuery(u) == u \in {"query", "sig", "signature", "awsKey", "google", "sigTwice", "sigEmptyFirst", "sigEncoded", "sigAndMore", "sigEmpty"}

Url(e) == <<<<"http.request.method", "method">>, <<"url.full", "full">>, <<"url.path", "path">>>>
   \o (IF HasQuery(e.url) THEN <<<<"url.query", "query">>>> ELSE <<>>)
   \o (IF Parses(e.url) THEN <<<<"url.scheme", "scheme">>, <<"server.address", "host">>, <<"server.port", "port">>>> ELSE <<>>)
Session(e) == IF e.session = "set" THEN <<<<"meticulous.frontend_session_id", "session">>>> ELSE <<>>
Err(e) == IF e.err = "none" THEN <<>> ELSE <<<<"error.type", "error">>>>
Named(e) == IF e.name = "set" THEN <<<<"meticulous.workerd.binding", "name">>>> ELSE <<>>
(* only two headers are ever kept *)
Headers(e) == CASE e.head \in {"type", "upper"} -> <<<<"http.request.header.content-type", "typeIn">>, <<"http.response.header.content-type", "typeOut">>>>
                [] e.head = "none" -> <<>>
                [] e.head = "noResponse" -> <<<<"http.request.header.content-type", "typeIn">>>>
                [] e.head = "secrets" -> <<<<"http.request.header.content-type", "typeIn">>>>
                [] e.head = "several" -> <<<<"http.request.header.content-type", "typesIn">>, <<"http.request.header.x-meticulous-session-id", "sessionIn">>>>
HttpAttrs(e) == Url(e) \o (IF e.status = "none" THEN <<>> ELSE <<<<"http.response.status_code", e.status>>>>) \o Err(e) \o Session(e) \o Headers(e)
Body(e, which, attr) == LET has == e.body \in {which, "both", "cut", "empty"} IN IF has THEN <<<<attr, IF e.body = "cut" THEN "cutText" ELSE IF e.body = "empty" THEN "emptyText" ELSE which>>, <<attr \o ".truncated", IF e.body = "cut" THEN "true" ELSE "false">>>> ELSE <<>>
Attrs(e) ==
  CASE e.kind = "inbound" -> HttpAttrs(e) \o (IF e.origin = "none" THEN <<>> ELSE <<<<"meticulous.session_id_origin", "backend">>>>)
    [] e.kind \in {"outbound", "binding"} -> HttpAttrs(e) \o (IF e.kind = "binding" THEN Named(e) ELSE <<>>) \o Body(e, "request", "http.request.body") \o Body(e, "response", "http.response.body")
    [] e.kind = "kv" -> <<<<"meticulous.workerd.kv.operation", "op">>>> \o Named(e) \o (IF e.key = "none" THEN <<>> ELSE <<<<"meticulous.workerd.kv.key", IF e.key = "empty" THEN "emptyText" ELSE "key">>>>)
         \o (IF e.omit = "none" THEN <<>> ELSE <<<<"meticulous.workerd.kv.omitted", "omit">>>>) \o Err(e) \o Session(e)
         \o Body(e, "request", "meticulous.workerd.kv.args") \o Body(e, "response", "meticulous.workerd.kv.result") \o (IF e.body \in {"value", "both"} THEN <<<<"meticulous.workerd.kv.value", "value">>, <<"meticulous.workerd.kv.value.truncated", "false">>>> ELSE <<>>)
    [] OTHER -> <<<<"meticulous.postgresjs.query.text", "text">>, <<"meticulous.postgresjs.query.params", "params">>, <<"meticulous.postgresjs.row_mode", "mode">>>> \o Session(e)
         \o (CASE e.body \in {"response", "both"} -> <<<<"meticulous.postgresjs.result", "response">>, <<"meticulous.postgresjs.result.truncated", "false">>>>
               [] e.body = "cut" -> <<<<"meticulous.postgresjs.result", "cutText">>, <<"meticulous.postgresjs.result.truncated", "true">>>>
               [] e.body = "atLimit" -> <<<<"meticulous.postgresjs.result", "capped">>, <<"meticulous.postgresjs.result.truncated", "false">>>>
               [] e.body = "tooLong" -> <<<<"meticulous.postgresjs.result", "capped">>, <<"meticulous.postgresjs.result.truncated", "true">>>>
               [] e.body = "empty" -> <<<<"meticulous.postgresjs.result", "emptyText">>, <<"meticulous.postgresjs.result.truncated", "false">>>> [] OTHER -> <<>>)
         \o (IF e.err = "none" THEN <<>> ELSE <<<<"meticulous.postgresjs.error", "error">>>>)
Number(s) == CASE s = "none" -> 0 [] s = "200" -> 200 [] s = "399" -> 399 [] s = "400" -> 400 [] s = "499" -> 499 [] s = "500" -> 500 [] OTHER -> 599
(* a server's answer is an error from 500 on, to its client from 400 on *)
Status(e) == IF e.err # "none" THEN [code |-> 2, message |-> e.kind # "postgres"]
             ELSE [code |-> IF Http(e) /\ Number(e.status) >= (IF Client(e) THEN 400 ELSE 500) THEN 2 ELSE 0, message |-> FALSE]
Tech(e) == CASE e.kind = "inbound" -> "none" [] e.kind = "outbound" -> "workerd-fetch" [] e.kind = "binding" -> "workerd-binding" [] e.kind = "kv" -> "workerd-kv" [] OTHER -> "postgres-js"
Span(e) == [attrs |-> Attrs(e), status |-> Status(e), tech |-> Tech(e), server |-> ~Client(e), session |-> e.session, time |-> e.time,
            \* the trace: what the report says, or else one per request and drain
            own |-> e.ids = "both", req |-> e.req]
Rec == [evs |-> evs, flushed |-> flushed, devs |-> devs, spans |-> [i \in 1..Len(evs) |-> Span(evs[i])]]
Emit == PrintT("@@" \o ToJson(<<Rec, act', Rec', TLCGet("level")>>))

Init == evs = <<>> /\ flushed = <<>> /\ devs = 0 /\ act = [n |-> "init"]
Reported == IF flushed = <<>> THEN 0 ELSE flushed[Len(flushed)]
Report(e, d) == Len(evs) < MaxEvents /\ devs + d <= MaxDev /\ devs' = devs + d /\ evs' = Append(evs, e) /\ act' = [n |-> "report"] /\ UNCHANGED flushed
Flush == Len(flushed) < MaxFlushes /\ Len(evs) > Reported /\ flushed' = Append(flushed, Len(evs)) /\ act' = [n |-> "flush"] /\ UNCHANGED <<evs, devs>>

(* the changes that make sense for a kind of event *)
Changes(k) ==
  (IF k \in {"inbound", "outbound", "binding"} THEN {<<"url", u>> : u \in Urls} \cup {<<"status", s>> : s \in Statuses} \cup {<<"head", h>> : h \in Heads} ELSE {})
  \cup {<<"err", x>> : x \in Errors} \cup {<<"session", x>> : x \in Sessions} \cup {<<"ids", x>> : x \in Ids} \cup {<<"time", x>> : x \in Times}
  \cup (IF k = "inbound" THEN {<<"origin", x>> : x \in Origins} ELSE {<<"body", x>> : x \in Bodies})
  \cup (IF k \in {"binding", "kv"} THEN {<<"name", x>> : x \in Names} ELSE {})
  \cup (IF k = "kv" THEN {<<"op", x>> : x \in Ops} \cup {<<"key", x>> : x \in Keys} \cup {<<"omit", x>> : x \in Omits} ELSE {})
  \cup (IF k = "postgres" THEN {<<"mode", x>> : x \in Modes} \cup {<<"text", x>> : x \in Texts} ELSE {})
With(e, c) == [e EXCEPT ![c[1]] = c[2]]
Next ==
  \/ \E k \in Kinds, r \in Requests : Report(Plain(k, r), 0)
  \/ \E k \in Kinds, r \in Requests : \E c \in Changes(k) : Report(With(Plain(k, r), c), 1)
  \/ MaxDev > 1 /\ \E k \in Kinds, r \in Requests : \E c \in Changes(k), d \in Changes(k) : c[1] # d[1] /\ Report(With(With(Plain(k, r), c), d), 2)
  \/ Flush
Spec == Init /\ [][Next]_vars

(* a client's span never claims where a session id came from; nothing but the two known headers is kept *)
OnlyKnown == \A i \in 1..Len(evs) : LET names == [j \in 1..Len(Attrs(evs[i])) |-> Attrs(evs[i])[j][1]] IN
   /\ (Client(evs[i]) => \A j \in DOMAIN names : names[j] # "meticulous.session_id_origin")
   /\ Cardinality({names[j] : j \in DOMAIN names}) = Len(names)
DrainsGrow == [][\A i \in 1..Len(flushed) : flushed'[i] = flushed[i]]_vars
=============================================================================
