----------------------------- MODULE NestedRedact -----------------------------
(***************************************************************************)
(* X01.  Redactors that are configured step by step, and documents they    *)
(* are applied to: which leaf is replaced, and by which redactor.          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Mode, Starts, Ops, MaxOps, Opts, Keys, Kinds, Shapes, MaxLeaves, MaxUses

VARIABLES start, ops, opt, leaves, uses, out, act
vars == <<start, ops, opt, leaves, uses, out, act>>
View == <<start, ops, opt, leaves, uses, out>>
Rec == [start |-> start, ops |-> ops, opt |-> opt, leaves |-> leaves, uses |-> uses, out |-> out]
Emit == PrintT("@@" \o ToJson(<<Rec, act', Rec', TLCGet("level")>>))

(* which keys a pattern stands for *)
Covers(op) == CASE op = "endSsn" -> {"ssn", "mySsn:ssn"}
                [] op = "endSsnKeep" -> {"ssn", "mySsn:ssn"}
                [] op = "keySsn" -> {"ssn"}
                [] op = "keyX" -> {"x"}
                [] op = "endTorKey" -> {"constructor"}
                [] op = "set" -> {"userName", "Name", "x"}
                [] op = "setSsn" -> {"ssn", "mySsn:ssn"}
                [] op = "endProto" -> {"__proto__"}
                [] op = "keyEmpty" -> {""}
                [] OTHER -> {}
DateCovers(op) == CASE op = "dateAt" -> {"createdAt"} [] op = "dateSet" -> {"createdAt", "ssn", "x"} [] OTHER -> {}
(* what is given explicitly when a redactor is created *)
Own(o) == CASE o = "ssn" -> {"ssn"} [] o = "all" -> {"ssn", "", "constructor", "__proto__", "id"} [] o = "ssnOther" -> {"ssn"} [] OTHER -> {}
Explicit(kind, o) == IF kind = "str" THEN Own(o) ELSE IF o = "all" /\ kind \in {"num", "big", "date"} THEN Own(o) ELSE {}
OtherOf(o) == o \in {"other", "ssnOther"}

DefRedact == {"name", "first_name", "my_last_name", "full_name", "fullName", "firstname", "myLastname", "url", "uri", "link", "href", "theUrl", "theUri", "theLink", "theHref", "address", "addressLine1", "my_address_line_1",
  "homeAddress", "home_address", "postalAddress", "postal_address", "phone", "workPhone", "phone_number", "ssn", "mySSN", "username", "myUsername", "user_name", "credit_card", "creditCard", "credit_card_number", "creditCardNumber", "cvc", "CVC",
  "text", "description", "summary", "title", "theText", "theDescription", "theSummary", "theTitle"}
DefDates == {"dob", "DOB", "date_of_birth", "dateOfBirth", "theDateOfBirth", "birthDate", "theBirthDate", "birth_date"}

First(s, T(_)) == IF \E i \in DOMAIN s : T(s[i]) THEN s[CHOOSE i \in DOMAIN s : T(s[i]) /\ \A j \in 1..(i - 1) : ~T(s[j])] ELSE "none"
(* the key a leaf is under: a list has the key of what it is in *)
KeyOf(l) == CASE l.shape \in {"root", "rootList"} -> "no key" [] l.shape = "objInList" -> "within" [] OTHER -> l.key
Nested(l) ==
  LET k == KeyOf(l) IN
  CASE l.kind = "str" ->
         (IF k \in Explicit("str", opt) THEN "own"
          ELSE IF start = "defaults" /\ k \in DefRedact THEN "default"
          ELSE LET p == First(ops, LAMBDA o : k \in Covers(o)) IN
               IF p # "none" THEN p
               ELSE IF start = "defaults" /\ k \in {"id", "userId", "theID", "my_id", "uuid", "type", "theKind", "created_at", "updatedAt"} THEN "kept"
               ELSE IF OtherOf(opt) THEN "other" ELSE IF \E i \in DOMAIN ops : ops[i] = "otherwise" THEN "otherwise" ELSE "kept")
    [] l.kind = "date" ->
         (IF k \in Explicit("date", opt) THEN "own"
          ELSE IF start = "defaults" /\ k \in DefDates THEN "default"
          ELSE LET p == First(ops, LAMBDA o : k \in DateCovers(o)) IN IF p # "none" THEN p ELSE "kept")
    [] l.kind \in {"num", "big"} -> IF k \in Explicit(l.kind, opt) THEN "own" ELSE "kept"
    [] OTHER -> "kept"
(* redactRecursively: by type, wherever it is; what a whole object or list is replaced by is not looked into *)
Has(x) == \E i \in DOMAIN ops : ops[i] = x
Recursive(l) ==
  CASE l.shape \notin {"root", "rootList"} /\ Has("object") /\ l.key = "ssn" -> "object"
    [] l.shape \in {"list", "listList", "objInList"} /\ Has("array") /\ l.key \in {"ssn", "x"} -> "array"
    [] l.kind \in {"str", "num", "big", "bool"} /\ Has(l.kind) -> l.kind
    [] OTHER -> "kept"
Tag(l) == IF Mode = "nested" THEN Nested(l) ELSE Recursive(l)

Init == /\ start \in Starts /\ ops = <<>> /\ opt = "unmade" /\ leaves = <<>> /\ uses = 0 /\ out = <<>> /\ act = [n |-> "init"]
With(op) == /\ opt = "unmade" /\ Len(ops) < MaxOps /\ (Mode = "recursive" => ~Has(op)) /\ ops' = Append(ops, op) /\ act' = [n |-> "with", op |-> op] /\ UNCHANGED <<start, opt, leaves, uses, out>>
Make(o) == /\ opt = "unmade" /\ opt' = o /\ act' = [n |-> "make", o |-> o] /\ UNCHANGED <<start, ops, leaves, uses, out>>
Add(k, t, s) == /\ opt # "unmade" /\ Len(leaves) < MaxLeaves
                /\ (s \in {"root", "rootList"} => leaves = <<>>) /\ (leaves # <<>> => leaves[1].shape \notin {"root", "rootList"})
                /\ leaves' = Append(leaves, [key |-> k, kind |-> t, shape |-> s]) /\ out' = <<>> /\ act' = [n |-> "add", key |-> k, kind |-> t, shape |-> s] /\ UNCHANGED <<start, ops, opt, uses>>
Use == /\ opt # "unmade" /\ leaves # <<>> /\ uses < MaxUses /\ uses' = uses + 1 /\ out' = [i \in DOMAIN leaves |-> Tag(leaves[i])] /\ act' = [n |-> "use"] /\ UNCHANGED <<start, ops, opt, leaves>>
Next == (\E op \in Ops : With(op)) \/ (\E o \in Opts : Make(o)) \/ (\E k \in Keys, t \in Kinds, s \in Shapes : Add(k, t, s)) \/ Use
Spec == Init /\ [][Next]_vars

(* a leaf some redactor is configured for is not kept; one that none is configured for is *)
Configured(l) == LET k == KeyOf(l) IN
  \/ k \in Explicit(l.kind, opt) \/ (l.kind = "str" /\ \E i \in DOMAIN ops : k \in Covers(ops[i]) \/ ops[i] = "otherwise") \/ (l.kind = "date" /\ \E i \in DOMAIN ops : k \in DateCovers(ops[i])) \/ (l.kind = "str" /\ OtherOf(opt))
  \/ (start = "defaults" /\ ((l.kind = "str" /\ k \in DefRedact) \/ (l.kind = "date" /\ k \in DefDates)))
KeptByChoice(l) == start = "defaults" \/ (Mode = "nested" /\ First(ops, LAMBDA o : KeyOf(l) \in Covers(o)) = "endSsnKeep")
Exact == Mode = "nested" => \A i \in DOMAIN out : (out[i] # "kept") => Configured(leaves[i])
Nothing == Mode = "nested" => \A i \in DOMAIN out : Configured(leaves[i]) => (out[i] # "kept" \/ KeptByChoice(leaves[i]))
=============================================================================
