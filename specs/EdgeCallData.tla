---------------------------- MODULE EdgeCallData ----------------------------
(***************************************************************************)
(* E08.  What is reported of one call on a binding, key-value namespace or *)
(* database client, depending on its arguments and its outcome.            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Fetches,  \* ways of calling a binding's fetch
          KvCalls, KvResults,
          Queries, Rows

VARIABLES kind, how, out, phase, act
vars == <<kind, how, out, phase, act>>
View == <<kind, how, out, phase>>

(* per key-value call: the operation, and what is known of what it writes *)
Op(h) == CASE h \in {"get", "getJson", "getOptions", "getMany"} -> "get" [] h = "getMeta" -> "getWithMetadata" [] h \in {"put", "putJson", "putOptions", "putBytes", "putStream", "putLong"} -> "put"
           [] h = "delete" -> "delete" [] OTHER -> "list"
HasKey(h) == h \notin {"getMany", "list", "listPrefix"}
Written(h) == CASE h \in {"put", "putJson", "putOptions", "putLong"} -> "text" [] h = "putBytes" -> "binary" [] h = "putStream" -> "stream" [] OTHER -> "none"
Read(o) == CASE o \in {"bytes", "view"} -> "binary" [] o = "stream" -> "stream" [] o \in {"undefined", "error", "errorWeird"} -> "none" [] o = "cyclic" -> "unknown" [] OTHER -> "text"
Failed(o) == o \in {"error", "errorWeird", "pgError"}
Report ==
  IF kind = "kv" THEN [op |-> Op(how), key |-> HasKey(how), value |-> Written(how) = "text", result |-> Read(out) = "text", unsure |-> Read(out) = "unknown",
                       omitted |-> IF Written(how) \in {"binary", "stream"} THEN Written(how) ELSE IF Read(out) \in {"binary", "stream"} THEN Read(out) ELSE "no",
                       failed |-> Failed(out), reported |-> TRUE]
  ELSE [op |-> "none", key |-> FALSE, value |-> FALSE, result |-> out \notin {"bigint", "cyclicRow"} /\ ~Failed(out), unsure |-> FALSE, omitted |-> "no", failed |-> Failed(out),
        \* what is not one query with one answer, a call that is no request, and a socket, cannot be replayed and are left alone
        reported |-> CASE kind = "pg" -> how \notin {"describe", "cursor", "forEach", "stream", "fragment"} [] OTHER -> how # "invalid" /\ out # "socket"]
Rec == [kind |-> kind, how |-> how, out |-> out, phase |-> phase, report |-> Report]
Emit == PrintT("@@" \o ToJson(<<Rec, act', Rec', TLCGet("level")>>))

Init == /\ phase = "new" /\ act = [n |-> "init"]
        /\ \/ kind = "service" /\ how \in Fetches /\ out \in {"ok", "empty", "error", "errorWeird", "status", "socket"}
           \/ kind = "kv" /\ how \in KvCalls /\ out \in KvResults \cup {"error", "errorWeird"}
           \/ kind = "pg" /\ how \in Queries /\ out \in Rows \cup {"error", "pgError", "errorWeird"}
Go == phase = "new" /\ phase' = "done" /\ act' = [n |-> "go"] /\ UNCHANGED <<kind, how, out>>
Next == Go
Spec == Init /\ [][Next]_vars
OutcomeKnown == Report.reported => (Report.failed \/ Report.result \/ Report.unsure \/ kind # "kv" \/ Report.omitted # "no" \/ out = "undefined")
=============================================================================
