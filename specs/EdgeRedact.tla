---------------------------- MODULE EdgeRedact ----------------------------
(***************************************************************************)
(* E07.  Documents sent or stored by the app, and what is captured of      *)
(* them: values under secret-looking keys are replaced, at any depth.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Keys, Leaves, Wraps, Surfaces, Mode

VARIABLES doc, surface, out, act
vars == <<doc, surface, out, act>>
Rec == [doc |-> doc, surface |-> surface, out |-> out]
View == <<doc, surface, out>>
Emit == PrintT("@@" \o ToJson(<<Rec, act', Rec', TLCGet("level")>>))

Secret == {"accessToken", "apiKey", "api_key", "authorization", "Authorization", "clientSecret", "client_secret", "CLIENT-SECRET", "credential", "id_token", "idToken",
           "password", "PassWord", "private-key", "privateKey", "refresh_token", "Refresh-Token", "secret", "token", "__token__", "-t_o-k_e_n"}

Leaf(v) == [t |-> "leaf", v |-> v]
Obj(ks, xs) == [t |-> "obj", ks |-> ks, xs |-> xs]
Arr(xs) == [t |-> "arr", xs |-> xs]

RECURSIVE Red(_)
Red(d) == CASE d.t = "leaf" -> d
            [] d.t = "arr" -> Arr([i \in DOMAIN d.xs |-> Red(d.xs[i])])
            [] OTHER -> Obj(d.ks, [i \in DOMAIN d.xs |-> IF d.ks[i] \in Secret THEN Leaf("REDACTED") ELSE Red(d.xs[i])])

Kept == Leaf("text")
Inner == {Leaf(v) : v \in Leaves} \cup {Arr(<<Kept, Obj(<<"password">>, <<Kept>>)>>), Obj(<<"token", "x">>, <<Kept, Kept>>), Arr(<<>>), Obj(<<>>, <<>>)}
Wrap(w, d) == CASE w = "top" -> d
                [] w = "array" -> Arr(<<Kept, d>>)
                [] w = "object" -> Obj(<<"before", "in", "after">>, <<Kept, d, Kept>>)
                [] w = "arrayInObject" -> Obj(<<"in">>, <<Arr(<<d, Kept, d>>)>>)
                [] w = "objectInArray" -> Arr(<<Arr(<<Obj(<<"in", "out">>, <<d, Kept>>)>>), Kept>>)
                [] w = "deep" -> Obj(<<"a">>, <<Obj(<<"a">>, <<Arr(<<Arr(<<Obj(<<"a", "b">>, <<Obj(<<"token_count">>, <<d>>), Kept>>)>>)>>)>>)>>)
Singles == {Wrap(w, Obj(<<k>>, <<d>>)) : w \in Wraps, k \in Keys, d \in Inner}
Pairs == {Wrap(w, Obj(<<p[1], p[2]>>, <<d, e>>)) : w \in Wraps, p \in {q \in Keys \X Keys : q[1] # q[2]}, d \in Inner, e \in Inner}

(* text that is not such a document is kept as it is *)
Texts == {Leaf(v) : v \in {"raw:form", "raw:broken", "raw:empty", "raw:text", "raw:secretText", "raw:null", "raw:spaced"}}

Init == /\ doc \in (CASE Mode = "singles" -> Singles [] Mode = "pairs" -> Pairs [] Mode = "texts" -> Texts)
        /\ surface \in Surfaces /\ out = Leaf("none") /\ act = [n |-> "init"]
(* bodies that are served back in replays are captured verbatim *)
Verbatim(s) == s \in {"response", "serviceResponse", "kvRead"}
Capture == /\ out = Leaf("none") /\ act' = [n |-> "capture"]
           /\ out' = (IF Verbatim(surface) THEN doc ELSE Red(doc)) /\ UNCHANGED <<doc, surface>>
Next == Capture
Spec == Init /\ [][Next]_vars

RECURSIVE Leaks(_)
Leaks(d) == CASE d.t = "leaf" -> FALSE
              [] d.t = "arr" -> \E i \in DOMAIN d.xs : Leaks(d.xs[i])
              [] OTHER -> \E i \in DOMAIN d.xs : IF d.ks[i] \in Secret THEN d.xs[i] # Leaf("REDACTED") ELSE Leaks(d.xs[i])
NoSecretLeft == out # Leaf("none") /\ ~Verbatim(surface) => ~Leaks(out)
Idempotent == out # Leaf("none") /\ ~Verbatim(surface) => Red(out) = out
=============================================================================
