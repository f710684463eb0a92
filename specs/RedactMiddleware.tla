--------------------------- MODULE RedactMiddleware ---------------------------
(***************************************************************************)
(* X01.  Middleware that redacts recorded requests and responses, applied  *)
(* to one after the other.                                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Mode,        \* "cookies", "drop", "json"
          Configs, Surfaces, Headers, Cookies, MaxHeaders, MaxCookies,
          Flags, Skips, Transforms, Urls, Bodies, MaxResponses

VARIABLES cfg, hs, rs, act
vars == <<cfg, hs, rs, act>>
View == <<cfg, hs, rs>>
Rec == [cfg |-> cfg, hs |-> hs, rs |-> rs]
Emit == PrintT("@@" \o ToJson(<<Rec, act', Rec', TLCGet("level")>>))

(* ---- headers; a cookie token is under a name *)
NameOf(c) == CASE c \in {"sid", "SID", "eq", "quoted", "empty", "spaced", "long"} -> "sid" [] c = "ctor" -> "constructor" [] c = "proto" -> "__proto__" [] c \in {"bare", "blank"} -> "none" [] OTHER -> c
Named(o) == CASE o = "none" -> {} [] o \in {"sid", "SID"} -> {"sid"} [] o = "several" -> {"sid", "constructor"} [] o = "proto" -> {"__proto__", "other"} [] OTHER -> {}
Carries(h) == IF cfg.surface = "request" THEN h \in {"cookie", "Cookie", "COOKIE"} ELSE h \in {"set-cookie", "Set-Cookie", "SET-COOKIE"}
Redacted(h, c) == Carries(h) /\ NameOf(c) \in Named(cfg.names)
Dropped(h) == Mode = "drop" /\ h \in {"cookie", "Cookie", "COOKIE"}
HeaderOut(h) == IF Dropped(h.h) THEN [kept |-> FALSE, cs |-> <<>>] ELSE [kept |-> TRUE, cs |-> [i \in DOMAIN h.cs |-> Mode = "cookies" /\ Redacted(h.h, h.cs[i])]]

(* ---- JSON responses *)
Matches(u) == CASE cfg.flags = "none" -> TRUE
                [] cfg.flags \in {"y", "gy"} -> u = "api"
                [] cfg.flags \in {"i", "gi"} -> u \in {"api", "mid", "API"}
                [] OTHER -> u \in {"api", "mid"}
Valid(b) == b \notin {"bad", "empty", "absent", "html"}
JsonOut(u, b) == IF ~Matches(u) THEN "as is" ELSE IF ~Valid(b) THEN (IF cfg.skip = "no" THEN "blanked" ELSE "as is") ELSE IF cfg.tf = "same" THEN "as is" ELSE cfg.tf

Init == /\ hs = <<>> /\ rs = <<>> /\ act = [n |-> "init"]
        /\ IF Mode = "json" THEN cfg \in [flags : Flags, skip : Skips, tf : Transforms] ELSE cfg \in [names : Configs, surface : Surfaces]
AddHeader(h) == /\ Mode # "json" /\ Len(hs) < MaxHeaders /\ hs' = Append(hs, [h |-> h, cs |-> <<>>]) /\ act' = [n |-> "header", h |-> h] /\ UNCHANGED <<cfg, rs>>
AddCookie(c) == /\ Mode # "json" /\ hs # <<>> /\ Len(hs[Len(hs)].cs) < MaxCookies /\ hs' = [hs EXCEPT ![Len(hs)].cs = Append(@, c)] /\ act' = [n |-> "cookie", c |-> c] /\ UNCHANGED <<cfg, rs>>
Response(u, b) == /\ Mode = "json" /\ Len(rs) < MaxResponses /\ rs' = Append(rs, [url |-> u, body |-> b, out |-> JsonOut(u, b)]) /\ act' = [n |-> "response", url |-> u, body |-> b] /\ UNCHANGED <<cfg, hs>>
Next == (\E h \in Headers : AddHeader(h)) \/ (\E c \in Cookies : AddCookie(c)) \/ (\E u \in Urls, b \in Bodies : Response(u, b))
Spec == Init /\ [][Next]_vars
(* what is done to a response does not depend on those before it *)
Memoryless == \A i, j \in DOMAIN rs : rs[i].url = rs[j].url /\ rs[i].body = rs[j].body => rs[i].out = rs[j].out
NoneLeft == Mode = "cookies" => \A i \in DOMAIN hs : \A j \in DOMAIN hs[i].cs : Carries(hs[i].h) /\ NameOf(hs[i].cs[j]) \in Named(cfg.names) => HeaderOut(hs[i]).cs[j]
=============================================================================
