------------------------------ MODULE TextRedact ------------------------------
(***************************************************************************)
(* X01.  Text and URLs that are redacted on their own.                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Mode, Fns, Tokens, MaxTokens, Schemes, Users, Hosts, Ports, Paths, Queries, Hashes

VARIABLES fn, toks, url, out, act
vars == <<fn, toks, url, out, act>>
View == <<fn, toks, url, out>>
Rec == [fn |-> fn, toks |-> toks, url |-> url, out |-> out]
Emit == PrintT("@@" \o ToJson(<<Rec, act', Rec', TLCGet("level")>>))

(* ---- text: a sequence of tokens *)
Some(s, S) == \E i \in DOMAIN s : s[i] \in S
Body == {"12", " ", "-", "/", ".", "_"}
IsNumber(s) == LET a == IF s[1] \in {"#", "$"} THEN 2 ELSE 1
                   b == IF s[Len(s)] = "%" THEN Len(s) - 1 ELSE Len(s)
               IN b >= a /\ \A i \in a..b : s[i] \in Body
ClassOf(f, s) == CASE f = "email" -> "email" [] f = "asterix" -> "asterix" [] f = "asterixAll" -> "asterixAll"
                   [] OTHER -> IF Some(s, {"@"}) THEN "email" ELSE IF s = <<>> THEN "asterix" ELSE IF s[1] \in {"http", "https"} THEN "url" ELSE IF s = <<"iso">> THEN "iso" ELSE IF IsNumber(s) THEN "number" ELSE "asterix"
Edge(s, i) == i \notin DOMAIN s \/ s[i] \in {"@", "."}
TokOut(c, s, i) == CASE c = "number" -> IF s[i] = "12" THEN "zero" ELSE "kept"
                     [] c = "asterix" -> IF s[i] = " " THEN "kept" ELSE "stars"
                     [] c = "asterixAll" -> IF s[i] = "nl" THEN "kept" ELSE "stars"
                     [] c = "email" -> IF s[i] \in {"@", ".", "nl"} \/ (s[i] = "com" /\ Edge(s, i - 1) /\ Edge(s, i + 1)) THEN "kept" ELSE "dashes"
                     [] OTHER -> "gone"
TextOut(f, s) == [class |-> ClassOf(f, s), toks |-> [i \in DOMAIN s |-> TokOut(ClassOf(f, s), s, i)]]

(* ---- URLs: their parts *)
Opaque == {"mailto", "data", "blob", "javascript"}
Broken == {"relative", "nohost", "spaces"}
Special == {"https", "http", "ftp", "file"}
UrlOut(u) == CASE u.scheme \in Broken -> [kind |-> "stars"]
               [] u.scheme \in Opaque -> [kind |-> "opaque", scheme |-> u.scheme]
               [] OTHER -> [kind |-> "url", scheme |-> u.scheme, user |-> u.user, host |-> "redacted.com", port |-> u.port, path |-> u.path, query |-> u.query, hash |-> u.hash # "none"]

Urls == [scheme : Schemes, user : Users, host : Hosts, port : Ports, path : Paths, query : Queries, hash : Hashes]
None == [scheme |-> "none"]
Fits(u) == /\ (u.scheme = "file" => u.user = "none" /\ u.port = "none") /\ (u.scheme \in Opaque \cup Broken => u.user = "none" /\ u.port = "none" /\ u.path = "one" /\ u.query = "none" /\ u.hash = "none" /\ u.host = "plain") /\ (u.scheme = "foo" => u.host \in {"plain"})

Init == /\ fn \in Fns /\ toks = <<>> /\ url = None /\ out = [class |-> "none", toks |-> <<>>] /\ act = [n |-> "init"]
Type(t) == /\ Mode = "text" /\ Len(toks) < MaxTokens /\ toks' = Append(toks, t) /\ out' = TextOut(fn, toks') /\ act' = [n |-> "type", t |-> t] /\ UNCHANGED <<fn, url>>
Url(u) == /\ Mode = "url" /\ Fits(u) /\ url = None /\ url' = u /\ out' = UrlOut(u) /\ act' = [n |-> "url"] /\ UNCHANGED <<fn, toks>>
Next == (\E t \in Tokens : Type(t)) \/ (Mode = "url" /\ url = None /\ \E u \in Urls : Url(u))
Spec == Init /\ [][Next]_vars

(* words and digits never survive, but for well-known domain endings *)
NoWords == Mode = "text" => \A i \in DOMAIN out.toks : toks[i] \in {"abc", "12", "emoji", "iso", "http", "https"} => out.toks[i] # "kept"
ShapeKept == Mode = "text" => Len(out.toks) = Len(toks)
NoParts == Mode = "url" /\ url # None /\ out.kind = "url" => out.host = "redacted.com"
=============================================================================
