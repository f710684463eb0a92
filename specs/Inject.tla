------------------------------ MODULE Inject ------------------------------
(***************************************************************************)
(* L02.  A page is written, a plugin is configured, and the page passes    *)
(* through the hooks of a bundler, some of them several times and some     *)
(* after the page was minified.  A page is a sequence of pieces; "R" is    *)
(* the recorder script the plugin puts there.                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Bundlers,  \* "vite", "webpack-hook", "webpack", "rspack", "rsbuild", "nuxt"
          Enableds,  \* "unset", "development", "always", "never", "asked-yes", "asked-no", "asked-prod"
          Injects,   \* "auto", "replace"
          Tokens,    \* "plain", "odd" (with markup in it), "empty", "missing", "number"
          Attrs,     \* "none", "extra", "over", "bad", "url"
          Modes, Commands, Envs, \* what the bundler and the environment say; "unset"
          Pre, HeadForms, InHead, InBody, \* the pieces pages are made of
          MaxHead, MaxBody, MaxPasses, Minifies

VARIABLES bundler, enabled, inject, tok, attrs, mode, cmd, env, \* the configuration
          ph,      \* "pre", "head", "body", "ready", "built", "refused"
          page,    \* the page as written
          nb,      \* pieces in the present part
          out,     \* the page as it is now
          min,     \* whether it was minified
          passes, warned, act
cfgv == <<bundler, enabled, inject, tok, attrs, mode, cmd, env>>
vars == <<cfgv, ph, page, nb, out, min, passes, warned, act>>
View == <<cfgv, ph, page, nb, out, min, passes, warned>>

Is(x, S) == x \in S
Placeholders == {"ph", "phattrs", "phself", "PH", "phfull"}
Heads == {"head", "headattrs", "HEAD", "headgt"}
Recorders == {"R", "manual"}
Positions(p, S) == {i \in 1..Len(p) : p[i] \in S}
Min(S) == CHOOSE i \in S : \A j \in S : i <= j
Insert(p, i, x) == SubSeq(p, 1, i) \o <<x>> \o SubSeq(p, i + 1, Len(p))
Swap(p, i, x) == [p EXCEPT ![i] = x]

\* which environment the build is for
Effective == IF mode = "unset" THEN env ELSE mode
Prod == CASE bundler = "vite" -> (cmd = "build" /\ Effective = "production")
          [] bundler = "nuxt" -> mode = "production"
          [] OTHER -> Effective = "production"
Framework == CASE bundler \in {"vite", "nuxt"} -> "vite" [] bundler \in {"webpack", "webpack-hook"} -> "webpack" [] OTHER -> "rspack"
Context == [framework |-> Framework, mode |-> Effective, command |-> IF bundler = "vite" THEN cmd ELSE "unset", isProduction |-> Prod]
Wanted == CASE enabled \in {"unset", "development"} -> ~Prod
            [] enabled = "always" -> TRUE [] enabled = "never" -> FALSE
            [] enabled = "asked-yes" -> TRUE [] enabled = "asked-no" -> FALSE [] enabled = "asked-prod" -> Prod
Attributes == [token |-> (IF attrs = "over" THEN "other" ELSE tok), src |-> (IF attrs \in {"over", "url"} THEN "own" ELSE "default"),
               prod |-> (IF attrs = "over" THEN "maybe" ELSE IF Prod THEN "true" ELSE "false"), extra |-> attrs = "extra"]
Refused == enabled # "never" /\ tok \in {"empty", "missing", "number"}

Rec == [bundler |-> bundler, enabled |-> enabled, inject |-> inject, tok |-> tok, attrs |-> attrs, mode |-> mode, cmd |-> cmd, env |-> env,
        ph |-> ph, page |-> page, nb |-> nb, out |-> out, min |-> min, passes |-> passes, warned |-> warned, ctx |-> Context, wanted |-> Wanted, rec |-> Attributes]
Emit == PrintT("@@" \o ToJson(<<Rec, act', Rec', TLCGet("level")>>))

Init == /\ bundler \in Bundlers /\ enabled \in Enableds /\ inject \in Injects /\ tok \in Tokens /\ attrs \in Attrs
        /\ mode \in Modes /\ cmd \in Commands /\ env \in Envs
        /\ (bundler # "vite" => cmd = "unset") /\ (bundler = "nuxt" => mode # "unset" /\ env = "unset" /\ inject = "auto" /\ attrs # "bad")
        /\ (bundler = "vite" => ((mode = "unset") <=> (cmd = "unset")))
        /\ ph = "pre" /\ page = <<>> /\ nb = 0 /\ out = <<>> /\ min = FALSE /\ passes = 0 /\ warned = 0 /\ act = [n |-> "init"]
Same == UNCHANGED <<cfgv, out, min, passes, warned>>

\* the page is written, piece by piece
Rank == [c_head |-> 1, doctype |-> 2, html |-> 3]
Put(x) ==
  /\ \/ ph = "pre" /\ x \in Pre /\ (\A i \in 1..Len(page) : Rank[page[i]] < Rank[x]) /\ nb' = nb /\ bundler # "nuxt"
     \/ ph = "head" /\ x \in InHead /\ nb < MaxHead /\ nb' = nb + 1 /\ (bundler = "nuxt" => x \in {"own", "inline"})
     \/ ph = "body" /\ x \in InBody /\ nb < MaxBody /\ nb' = nb + 1 /\ bundler # "nuxt"
  /\ page' = Append(page, x) /\ act' = [n |-> "put", x |-> x] /\ UNCHANGED ph /\ Same
HeadOf(x) ==
  /\ ph = "pre" /\ x \in HeadForms /\ act' = [n |-> "put", x |-> x] /\ ph' = (IF x = "nohead" THEN "body" ELSE "head") /\ nb' = 0 /\ Same
  /\ page' = (IF bundler = "nuxt" \/ x = "nohead" THEN page ELSE Append(page, x)) /\ (bundler = "nuxt" => x = "head")
EndHead == ph = "head" /\ ph' = "body" /\ nb' = 0 /\ page' = (IF bundler = "nuxt" THEN page ELSE Append(page, "/head")) /\ act' = [n |-> "put", x |-> "/head"] /\ Same
\* the plugin is set up
Build ==
  /\ ph = "body" /\ ph' = (IF Refused THEN "refused" ELSE "built") /\ act' = [n |-> "build"] /\ nb' = 0 /\ page' = page /\ out' = page /\ UNCHANGED <<cfgv, min, passes, warned>>

Hooks == CASE bundler = "rspack" -> {"hook1", "hook2", "hook3", "assets"} [] bundler = "webpack" -> {"assets"} [] OTHER -> {"page"}
\* the plugin looks at a page unless the bundler hands it pieces of pages as well
Looks(h) == h # "assets" \/ Positions(out, {"html"}) # {}
HasRecorder(p) == Positions(p, Recorders) # {}
AfterHead(p) == IF Positions(p, Heads) = {} THEN p ELSE Insert(p, Min(Positions(p, Heads)), "R")
Injected(p) ==
  IF bundler = "nuxt" THEN <<"R">> \o p
  ELSE IF inject = "replace" /\ Positions(p, Placeholders) # {} THEN Swap(p, Min(Positions(p, Placeholders)), "R")
  ELSE AfterHead(p)
Warns(p) == bundler # "nuxt" /\ IF inject = "replace" THEN Positions(p, Placeholders) = {} ELSE Positions(p, Heads) = {}
Pass(h) ==
  /\ ph = "built" /\ h \in Hooks /\ passes < MaxPasses /\ (bundler = "nuxt" => passes = 0) /\ passes' = passes + 1 /\ act' = [n |-> "pass", h |-> h]
  /\ IF Wanted /\ Looks(h) /\ ~HasRecorder(out) THEN out' = Injected(out) /\ warned' = (IF Warns(out) THEN warned + 1 ELSE warned)
     ELSE UNCHANGED <<out, warned>>
  /\ UNCHANGED <<cfgv, ph, page, nb, min>>
Minify == /\ ph = "built" /\ ~min /\ Minifies /\ bundler # "nuxt" /\ passes \in 1..(MaxPasses - 1) /\ min' = TRUE /\ act' = [n |-> "minify"] /\ UNCHANGED <<cfgv, ph, page, nb, out, passes, warned>>

Next == (\E x \in Pre \cup InHead \cup InBody : Put(x)) \/ (\E x \in HeadForms : HeadOf(x)) \/ EndHead \/ Build \/ (\E h \in {"page", "hook1", "hook2", "hook3", "assets"} : Pass(h)) \/ Minify
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
\* however often it is looked at, a page does not get a second recorder
OnlyOne == ph = "built" => Cardinality(Positions(out, {"R"})) <= 1 /\ (Positions(page, {"manual"}) # {} => Positions(out, {"R"}) = {})
\* a page with a head has one once it was looked at, if it is wanted
Injection == (ph = "built" /\ passes > 0 /\ Wanted /\ Positions(page, Heads) # {} /\ Positions(page, {"html"}) # {}) => HasRecorder(out)
\* and none if it is not
Off == (ph = "built" /\ ~Wanted) => out = page
\* nothing else about the page changes, up to one placeholder
Rest(p) == SelectSeq(p, LAMBDA x : x # "R")
Untouched == ph = "built" =>
  \/ Rest(out) = page
  \/ inject = "replace" /\ \E i \in Positions(page, Placeholders) : Rest(out) = SubSeq(page, 1, i - 1) \o SubSeq(page, i + 1, Len(page))
\* it comes before the page's own scripts
First == (ph = "built" /\ inject = "auto") => \A i \in Positions(out, {"R"}), j \in Positions(out, {"own", "inline"}) : i < j
\* a token is needed exactly if something might be injected
Refusals == (ph = "refused" => enabled # "never") /\ ((ph = "built" /\ Wanted) => tok \in {"plain", "odd"})
\* production is recorded only when asked for
NoSurprise == (ph = "built" /\ enabled \in {"unset", "development"} /\ Positions(out, {"R"}) # {}) => ~Prod
Stays == [][(ph = "built" /\ HasRecorder(out)) => out' = out]_vars
=============================================================================
