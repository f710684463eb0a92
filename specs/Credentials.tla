---------------------------- MODULE Credentials ----------------------------
(***************************************************************************)
(* A03.  Which credential a request carries.  Sources: one passed to the   *)
(* client, the stored login, the environment, the configuration file.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS Explicits, Envs, Files, Logins, Terminals, MaxChanges, MaxRequests, MaxToken, Statuses

VARIABLES explicit, \* passed to the client: BOOLEAN
          env,      \* the environment's token: 0 none, k the k-th
          file,     \* "none", "token", "empty", "corrupt"
          login,    \* the stored login: [has, k, fresh]
          tty,      \* "terminal", "ci" (a terminal, in CI) or "none"
          client,   \* [kind, cred, live]; kind "none", "failed", "plain" or "login"; live: chosen anew for each request
          requests, changes,
          last,     \* what the last request carried, and its end: [cred, end]
          next, act
vars == <<explicit, env, file, login, tty, client, requests, changes, last, next, act>>
View == <<explicit, env, file, login, tty, client, requests, changes, last, next>>
Rec == [explicit |-> explicit, env |-> env, file |-> file, login |-> login, tty |-> tty, client |-> client, requests |-> requests, changes |-> changes, last |-> last, next |-> next]
Emit == PrintT("@@" \o ToJson(<<Rec, act', Rec', TLCGet("level")>>))
NoLogin == [has |-> FALSE, k |-> 0, fresh |-> FALSE]
Start(l) == CASE l = "none" -> NoLogin [] l = "fresh" -> [has |-> TRUE, k |-> 1, fresh |-> TRUE] [] OTHER -> [has |-> TRUE, k |-> 1, fresh |-> FALSE]
Init == /\ explicit \in Explicits /\ env \in Envs /\ file \in Files /\ (\E l \in Logins : login = Start(l)) /\ tty \in Terminals /\ client = [kind |-> "none", cred |-> "none", live |-> FALSE]
        /\ requests = 0 /\ changes = 0 /\ last = [cred |-> "none", end |-> "none"] /\ next = 2 /\ act = [n |-> "init"]

Env(e) == <<"env1", "env2">>[e]
Oauth(k) == <<"oauth1", "oauth2", "oauth3", "oauth4", "oauth5", "oauth6">>[k]
(* what is left once neither a passed credential nor a login is to be had *)
Static == IF env > 0 THEN Env(env) ELSE CASE file = "token" -> "file" [] file = "corrupt" -> "corrupt" [] OTHER -> "none"
(* the whole chain: <<credential, login afterwards>>; ok: whether a refresh, if one is needed, succeeds *)
Needed == ~explicit /\ login.has /\ ~login.fresh
Chain(ok) == IF explicit THEN <<"explicit", login>>
             ELSE IF login.has /\ login.fresh THEN <<Oauth(login.k), login>>
             ELSE IF login.has /\ ok THEN <<Oauth(next), [has |-> TRUE, k |-> next, fresh |-> TRUE]>>
             ELSE <<Static, NoLogin>>
Made(kind, cred, live) == IF cred = "corrupt" THEN [kind |-> "failed", cred |-> "none", live |-> FALSE] ELSE [kind |-> kind, cred |-> cred, live |-> live]

CreatePlain == /\ client.kind = "none" /\ act' = [n |-> "create", kind |-> "plain"] /\ UNCHANGED <<explicit, env, file, login, tty, requests, changes, last, next>>
               /\ client' = Made("plain", IF explicit THEN "explicit" ELSE Static, FALSE)
(* offer: whether to offer a login in the browser, done: whether it is done if it takes place *)
CreateLogin(ok, offer, done) ==
  /\ client.kind = "none" /\ UNCHANGED <<explicit, env, file, tty, requests, changes, last>>
  /\ LET c == Chain(ok)  browser == offer /\ tty = "terminal" /\ c[1] = "none" IN
     /\ (~Needed => ok) /\ (~browser => done) /\ ((Needed /\ ok) \/ browser => next <= MaxToken)
     /\ act' = [n |-> "create", kind |-> "login", refresh |-> Needed, ok |-> ok, offer |-> offer, browser |-> browser, done |-> done, k |-> next]
     /\ IF browser THEN IF done THEN /\ login' = [has |-> TRUE, k |-> next, fresh |-> TRUE] /\ next' = next + 1 /\ client' = [kind |-> "login", cred |-> Oauth(next), live |-> TRUE]
                                     ELSE login' = c[2] /\ next' = next /\ client' = [kind |-> "failed", cred |-> "none", live |-> FALSE]
        ELSE login' = c[2] /\ next' = next + (IF Needed /\ ok THEN 1 ELSE 0) /\ client' = Made("login", c[1], ~explicit /\ c[2].has)
End(cred, status) == CASE status = 200 -> "ok" [] status \in {401, 403} /\ cred = "none" -> "guided" [] OTHER -> "error"
Request(ok, status) ==
  /\ client.kind \in {"plain", "login"} /\ requests < MaxRequests /\ requests' = requests + 1 /\ UNCHANGED <<explicit, env, file, tty, client, changes>>
  /\ LET need == client.live /\ Needed
         c == Chain(ok)
         cred == IF ~client.live THEN client.cred ELSE IF c[1] = "none" THEN client.cred ELSE c[1]
     IN /\ (~need => ok) /\ (need /\ ok => next <= MaxToken) /\ act' = [n |-> "request", refresh |-> need, ok |-> ok, status |-> status, k |-> next]
        /\ next' = next + (IF need /\ ok THEN 1 ELSE 0) /\ login' = (IF client.live THEN c[2] ELSE login)
        /\ last' = IF cred = "corrupt" THEN [cred |-> "unsent", end |-> "error"] ELSE [cred |-> cred, end |-> End(cred, status)]
Change == changes < MaxChanges /\ changes' = changes + 1 /\ UNCHANGED <<explicit, file, tty, client, requests, last>>
SetEnv == Change /\ env' = (IF env = 1 THEN 2 ELSE 1) /\ act' = [n |-> "env", env |-> env'] /\ UNCHANGED <<login, next>>
DropEnv == Change /\ env > 0 /\ env' = 0 /\ act' = [n |-> "env", env |-> 0] /\ UNCHANGED <<login, next>>
Login == Change /\ next <= MaxToken /\ login' = [has |-> TRUE, k |-> next, fresh |-> TRUE] /\ next' = next + 1 /\ act' = [n |-> "login", k |-> next] /\ UNCHANGED env
Logout == Change /\ login.has /\ login' = NoLogin /\ act' = [n |-> "logout"] /\ UNCHANGED <<env, next>>
Expire == Change /\ login.has /\ login.fresh /\ login' = [login EXCEPT !.fresh = FALSE] /\ act' = [n |-> "expire"] /\ UNCHANGED <<env, next>>
Next == CreatePlain \/ (\E ok, offer, done \in BOOLEAN : CreateLogin(ok, offer, done)) \/ (\E ok \in BOOLEAN, s \in Statuses : Request(ok, s)) \/ SetEnv \/ DropEnv \/ Login \/ Logout \/ Expire
Spec == Init /\ [][Next]_vars

(* an explicitly passed credential is used, and it alone, by every request *)
ExplicitWins == explicit => last.cred \in {"none", "explicit"} /\ (requests > 0 => last.cred = "explicit")
(* a client that follows the login never sends an expired or replaced token while there is a login *)
FollowsLogin == [][(requests' > requests /\ client.live /\ login'.has) => login'.fresh /\ last'.cred = Oauth(login'.k)]_vars
PlainIgnoresLogin == client.kind = "plain" => client.cred \in {"explicit", "env1", "env2", "file", "none"}
=============================================================================
