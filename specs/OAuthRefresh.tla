---------------------------- MODULE OAuthRefresh ----------------------------
(***************************************************************************)
(* A01.  The stored login and its refresh.  The callers are of one         *)
(* process; other processes log in and out and refresh as well.            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS Callers, Starts, MaxNew, MaxCalls, MaxOther, Failures

VARIABLES st,      \* the stored login: [has, a, r, id, left]; a, r and id number the tokens
          disc,    \* whether the endpoints are known
          ref,     \* the refresh under way: [on, a, r, id, at]; at: "discover" or "token"
          waiting, \* who waits for it
          got,     \* what each caller got last: 0 nothing, k the access token k
          calls, others,
          next,    \* the next number for tokens
          act
vars == <<st, disc, ref, waiting, got, calls, others, next, act>>
View == <<st, disc, ref, waiting, got, calls, others, next>>
Rec == [st |-> st, disc |-> disc, ref |-> ref, waiting |-> waiting, got |-> got, calls |-> calls, others |-> others, next |-> next]
Emit == PrintT("@@" \o ToJson(<<Rec, act', Rec', TLCGet("level")>>))

NoLogin == [has |-> FALSE, a |-> 0, r |-> 0, id |-> 0, left |-> 0]
NoRef == [on |-> FALSE, a |-> 0, r |-> 0, id |-> 0, at |-> "none"]
Idle == [c \in Callers |-> FALSE]
Start(k) == CASE k = "none" -> NoLogin [] k = "stale" -> [has |-> TRUE, a |-> 1, r |-> 1, id |-> 1, left |-> 30] [] k = "fresh" -> [has |-> TRUE, a |-> 1, r |-> 1, id |-> 1, left |-> 31]
              [] k = "norefresh" -> [has |-> TRUE, a |-> 1, r |-> 0, id |-> 1, left |-> 30]
Init == /\ \E k \in Starts : st = Start(k)
        /\ disc = FALSE /\ ref = NoRef /\ waiting = Idle /\ got = [c \in Callers |-> 0] /\ calls = 0 /\ others = 0 /\ next = 2 /\ act = [n |-> "init"]
Fresh(s) == s.has /\ s.left > 30

(* a caller asks for a token *)
Call(c) ==
  /\ ~waiting[c] /\ calls < MaxCalls /\ calls' = calls + 1 /\ act' = [n |-> "call", c |-> c] /\ UNCHANGED <<disc, others, next>>
  /\ IF ~st.has THEN got' = [got EXCEPT ![c] = 0] /\ UNCHANGED <<st, ref, waiting>>
     ELSE IF Fresh(st) THEN got' = [got EXCEPT ![c] = st.a] /\ UNCHANGED <<st, ref, waiting>>
     ELSE IF st.r = 0 THEN got' = [got EXCEPT ![c] = 0] /\ st' = NoLogin /\ UNCHANGED <<ref, waiting>>
     ELSE /\ waiting' = [waiting EXCEPT ![c] = TRUE] /\ UNCHANGED <<st, got>>
          \* a refresh token may be usable only once: one refresh at a time
          /\ (ref.on => ref.r = st.r) \* a caller with another login while a refresh is under way is left to the others' runs
          /\ ref' = IF ref.on THEN ref ELSE [on |-> TRUE, a |-> st.a, r |-> st.r, id |-> st.id, at |-> IF disc THEN "token" ELSE "discover"]

(* the end of the refresh: what it found counts only if the stored login is still the one it started from *)
Same == st.has /\ st.a = ref.a /\ st.r = ref.r
End(newSt, tok) ==
  LET s2 == IF Same THEN newSt ELSE st
      t2 == IF Same THEN tok ELSE IF Fresh(st) THEN st.a ELSE 0
  IN /\ st' = s2 /\ got' = [c \in Callers |-> IF waiting[c] THEN t2 ELSE got[c]] /\ waiting' = Idle /\ ref' = NoRef
Discovered == /\ ref.on /\ ref.at = "discover" /\ act' = [n |-> "discovered"] /\ disc' = TRUE /\ ref' = [ref EXCEPT !.at = "token"] /\ UNCHANGED <<st, waiting, got, calls, others, next>>
Refreshed(rotate) ==
  /\ ref.on /\ ref.at = "token" /\ next <= MaxNew /\ next' = next + 1 /\ act' = [n |-> "refreshed", rotate |-> rotate, k |-> next] /\ UNCHANGED <<disc, calls, others>>
  /\ End([has |-> TRUE, a |-> next, r |-> IF rotate THEN next ELSE ref.r, id |-> IF rotate THEN next ELSE ref.id, left |-> 300], next)
(* the new login cannot be stored *)
Unstored == /\ ref.on /\ ref.at = "token" /\ Same /\ "full" \in Failures /\ act' = [n |-> "failed", kind |-> "full", k |-> next] /\ End(NoLogin, 0) /\ UNCHANGED <<disc, calls, others, next>>
Failed(f) == /\ ref.on /\ f # "full" /\ act' = [n |-> "failed", kind |-> f] /\ End(NoLogin, 0) /\ UNCHANGED <<disc, calls, others, next>>

(* meanwhile, elsewhere *)
Other == others < MaxOther /\ others' = others + 1 /\ UNCHANGED <<disc, ref, waiting, got, calls>>
Login == /\ Other /\ next <= MaxNew /\ st' = [has |-> TRUE, a |-> next, r |-> next, id |-> next, left |-> 300] /\ next' = next + 1 /\ act' = [n |-> "login", k |-> next]
Logout == /\ Other /\ st.has /\ st' = NoLogin /\ next' = next /\ act' = [n |-> "logout"]
OtherRefresh(rotate) == /\ Other /\ st.has /\ st.r > 0 /\ next <= MaxNew /\ st' = [st EXCEPT !.a = next, !.r = IF rotate THEN next ELSE @, !.left = 300] /\ next' = next + 1 /\ act' = [n |-> "otherRefresh"]
(* time passes: from long valid to just valid enough, and to not enough *)
Tick == /\ st.has /\ st.left > 30 /\ st' = [st EXCEPT !.left = IF @ = 300 THEN 31 ELSE 30] /\ act' = [n |-> "tick", s |-> IF st.left = 300 THEN 269 ELSE 1] /\ UNCHANGED <<disc, ref, waiting, got, calls, others, next>>
Next == (\E c \in Callers : Call(c)) \/ Discovered \/ (\E b \in BOOLEAN : Refreshed(b) \/ OtherRefresh(b)) \/ (\E f \in Failures : Failed(f)) \/ Login \/ Logout \/ Tick \/ Unstored
Spec == Init /\ [][Next]_vars

(* a login disappears only by a logout, or because its own refresh failed or was not possible *)
NeverLost == [][(st.has /\ ~st'.has) => act'.n = "logout" \/ (act'.n = "failed" /\ st.a = ref.a /\ st.r = ref.r) \/ (act'.n = "call" /\ st.r = 0)]_vars
(* a logged-out user is not logged in again by a refresh *)
NotRevived == [][(~st.has /\ st'.has) => act'.n = "login"]_vars
OnlyFresh == [][\A c \in Callers : got'[c] # got[c] /\ got'[c] # 0 => st'.has /\ st'.a = got'[c] /\ st'.left > 30]_vars
=============================================================================
