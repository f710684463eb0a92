----------------------------- MODULE LoginFlow -----------------------------
(***************************************************************************)
(* L03.  A login flow is recorded: the browser is opened, the user signs   *)
(* in, asks to finish - perhaps twice - and the data are saved, while      *)
(* pages are closed, calls fail, or the browser goes away.                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Faults,  \* what fails while opening: "none", "launch", "context", "page", "expose", "frame", "bootstrap"
          Options, \* "plain", "full": which settings are given
          Ends,    \* how calls end: "ok", "fails"
          MaxClicks

VARIABLES opt,
          main,    \* "off", "opening", "recording", "ended"
          result,  \* "none", "ok", "failed"
          login, data, screen, \* pages: "none", "open", "closed"
          fin,     \* saving: "no", "screen", "flush", "visit", "flushdata", "done", "failed"
          begun,   \* the login session was registered
          clicks, launched, act
vars == <<opt, main, result, login, data, screen, fin, begun, clicks, launched, act>>
View == <<opt, main, result, login, data, screen, fin, begun, clicks, launched>>
Rec == [opt |-> opt, main |-> main, result |-> result, login |-> login, data |-> data, screen |-> screen, fin |-> fin, begun |-> begun, clicks |-> clicks, launched |-> launched]
Emit == PrintT("@@" \o ToJson(<<Rec, act', Rec', TLCGet("level")>>))

Init == opt \in Options /\ main = "off" /\ result = "none" /\ login = "none" /\ data = "none" /\ screen = "none" /\ fin = "no" /\ begun = FALSE /\ clicks = 0 /\ launched = FALSE /\ act = [n |-> "init"]

Shut(x) == IF x = "open" THEN "closed" ELSE x
\* the end: all pages are closed, and the browser too
End(r, f) == /\ main' = "ended" /\ result' = r /\ login' = Shut(login) /\ data' = Shut(data) /\ screen' = Shut(screen) /\ fin' = f
Fail == End("failed", IF fin = "no" THEN "no" ELSE "failed")

Start(f) ==
  /\ main = "off" /\ act' = [n |-> "start", f |-> f] /\ launched' = (f # "launch") /\ UNCHANGED <<data, screen, fin, begun, clicks>>
  /\ IF f = "none" THEN main' = "opening" /\ login' = "open" /\ UNCHANGED result
     ELSE main' = "ended" /\ result' = "failed" /\ login' = (IF f \in {"launch", "context", "page"} THEN "none" ELSE "closed")
Loaded(r) ==
  /\ main = "opening" /\ act' = [n |-> "loaded", r |-> r] /\ UNCHANGED <<begun, clicks, launched>>
  /\ IF r = "ok" THEN main' = "recording" /\ UNCHANGED <<result, login, data, screen, fin>> ELSE Fail
Begin == /\ main \in {"opening", "recording"} /\ login = "open" /\ ~begun /\ begun' = TRUE /\ act' = [n |-> "begin"] /\ UNCHANGED <<main, result, login, data, screen, fin, clicks, launched>>
\* the page on which the data are saved registers a session too, but not of a login
BeginData == /\ fin = "flushdata" /\ data = "open" /\ act' = [n |-> "begindata"] /\ UNCHANGED <<main, result, login, data, screen, fin, begun, clicks, launched>>
\* asked to finish; asked again, nothing else happens
Click(times) == \* in quick succession
  /\ main = "recording" /\ login = "open" /\ clicks + times <= MaxClicks /\ clicks' = clicks + times /\ act' = [n |-> "click", times |-> times] /\ UNCHANGED <<main, result, login, begun, launched>>
  /\ IF fin = "no" THEN fin' = "screen" /\ data' = "open" /\ screen' = "open" ELSE UNCHANGED <<fin, data, screen>>
Pending == main = "recording" /\ UNCHANGED <<begun, clicks, launched>>
Screen(r) == /\ Pending /\ fin = "screen" /\ act' = [n |-> "screen", r |-> r] /\ IF r = "ok" THEN fin' = "flush" /\ UNCHANGED <<main, result, login, data, screen>> ELSE Fail
\* what was recorded is sent, and only then the page is closed
Flush(r) ==
  /\ Pending /\ fin = "flush" /\ act' = [n |-> "flush", r |-> r]
  /\ IF r = "ok" /\ data = "open" THEN fin' = "visit" /\ login' = "closed" /\ UNCHANGED <<main, result, data, screen>> ELSE Fail
Visit(r) == /\ Pending /\ fin = "visit" /\ act' = [n |-> "visit", r |-> r] /\ IF r = "ok" THEN fin' = "flushdata" /\ UNCHANGED <<main, result, login, data, screen>> ELSE Fail
FlushData(r) == /\ Pending /\ fin = "flushdata" /\ act' = [n |-> "flushdata", r |-> r] /\ IF r = "ok" THEN End(IF begun THEN "ok" ELSE "failed", "done") ELSE Fail
\* the user closes a page
Close(p) ==
  /\ main \in {"opening", "recording"} /\ act' = [n |-> "close", p |-> p] /\ UNCHANGED <<begun, clicks, launched>>
  /\ CASE p = "login" -> login = "open" /\ Fail
       [] p = "data" -> data = "open" /\ IF fin \in {"visit", "flushdata"} THEN Fail ELSE data' = "closed" /\ UNCHANGED <<main, result, login, screen, fin>>
       [] p = "screen" -> screen = "open" /\ IF fin = "screen" THEN Fail ELSE screen' = "closed" /\ UNCHANGED <<main, result, login, data, fin>>
Gone == main \in {"opening", "recording"} /\ act' = [n |-> "gone"] /\ UNCHANGED <<begun, clicks, launched>> /\ Fail

Steps == (\E f \in Faults : Start(f)) \/ Begin \/ BeginData \/ Click(1) \/ Click(2) \/ Gone \/ (\E p \in {"login", "data", "screen"} : Close(p))
        \/ \E r \in Ends : Loaded(r) \/ Screen(r) \/ Flush(r) \/ Visit(r) \/ FlushData(r)
Next == Steps /\ UNCHANGED opt
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
OnlyIfSaved == result = "ok" => (fin = "done" /\ begun /\ clicks > 0)
AlwaysReported == (main = "ended") <=> (result # "none")
NothingLeft == main = "ended" => "open" \notin {login, data, screen}
\* what the user finished, and nothing disturbed, succeeds, however often it was asked for
Succeeds == (fin = "done" /\ begun) => result = "ok"
\* the page is not closed before what it recorded was sent
SentFirst == [][(login = "open" /\ login' = "closed" /\ main' = "recording") => (fin = "flush" /\ fin' = "visit")]_vars
Final == [][main = "ended" => UNCHANGED View]_vars
=============================================================================
