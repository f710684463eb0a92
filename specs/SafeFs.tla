------------------------------- MODULE SafeFs -------------------------------
(***************************************************************************)
(* K02.  Guarded writes below a repository's root.  The repository is a    *)
(* tree of files, directories and symbolic links that somebody else put    *)
(* there; a guarded operation follows none of the links, leaves the root   *)
(* on no path, and either does exactly what it was asked or nothing.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Names, Deepest, \* entries lie at most so deep
          LinkKinds,      \* where a link leads: "outdir", "outfile", "nowhere", "inside"
          Forms,          \* how a path is spelled
          Segments, Longest, MaxSeeds, MaxOps

VARIABLES tree,  \* entries: a sequence of [p |-> path, t |-> type]
          via,   \* the root is given as it is, or through a link
          nseeds, nops, result, act
vars == <<tree, via, nseeds, nops, result, act>>
View == <<tree, via, nseeds, nops, result>>
Rec == [tree |-> tree, via |-> via, nseeds |-> nseeds, nops |-> nops, result |-> result]
Emit == PrintT("@@" \o ToJson(<<Rec, act', Rec', TLCGet("level")>>))

Paths(S, n) == UNION {[1..k -> S] : k \in 1..n}
Places == Paths(Names, Deepest)
Given == Paths(Segments, Longest)
Entry(p) == {i \in 1..Len(tree) : tree[i].p = p}
TypeAt(p) == IF p = <<>> THEN "dir" ELSE IF Entry(p) = {} THEN "none" ELSE tree[CHOOSE i \in Entry(p) : TRUE].t
Up(p) == SubSeq(p, 1, Len(p) - 1)

\* what a path names, links aside: the segments that remain, or that it leaves the root
RECURSIVE Fold(_, _, _)
Fold(p, i, acc) == IF i > Len(p) THEN acc
                   ELSE IF p[i] = "." THEN Fold(p, i + 1, acc)
                   ELSE IF p[i] = ".." THEN (IF acc = <<>> \/ acc[Len(acc)] = ".." THEN Fold(p, i + 1, Append(acc, "..")) ELSE Fold(p, i + 1, Up(acc)))
                   ELSE Fold(p, i + 1, Append(acc, p[i]))
Names0(p) == Fold(p, 1, <<>>)
Leaves(p) == \E i \in 1..Len(Names0(p)) : Names0(p)[i] = ".."

Link(t) == t \in LinkKinds
\* a link or a file in the way
Blocked(q) == \E i \in 1..Len(q) : Link(TypeAt(SubSeq(q, 1, i))) \/ (i < Len(q) /\ TypeAt(SubSeq(q, 1, i)) \notin {"none", "dir"})
Refused(p, form) == form = "absolute" \/ Leaves(p) \/ (form = "backslash" /\ \E i \in 1..Len(p) : p[i] = "..") \/ Blocked(Names0(p))

Init == tree = <<>> /\ via \in {"direct", "link"} /\ nseeds = 0 /\ nops = 0 /\ result = "" /\ act = [n |-> "init"]
Seed(p, t) ==
  /\ nseeds < MaxSeeds /\ nops = 0 /\ TypeAt(p) = "none" /\ TypeAt(Up(p)) = "dir" /\ tree' = Append(tree, [p |-> p, t |-> t]) /\ nseeds' = nseeds + 1
  /\ act' = [n |-> "seed", p |-> p, t |-> t] /\ UNCHANGED <<via, nops, result>>

\* the directories on the way to q, those that are missing
RECURSIVE Missing(_, _)
Missing(q, i) == IF i > Len(q) THEN <<>> ELSE IF TypeAt(SubSeq(q, 1, i)) = "none" THEN <<[p |-> SubSeq(q, 1, i), t |-> "dir"]>> \o Missing(q, i + 1) ELSE Missing(q, i + 1)
Written(q, t) == [i \in 1..Len(tree) |-> IF tree[i].p = q THEN [p |-> q, t |-> t] ELSE tree[i]] \o Missing(Up(q), 1) \o (IF TypeAt(q) = "none" THEN <<[p |-> q, t |-> t]>> ELSE <<>>)
Op(op, p, form) ==
  /\ nops < MaxOps /\ nops' = nops + 1 /\ act' = [n |-> op, p |-> p, form |-> form] /\ UNCHANGED <<via, nseeds>> /\ (form # "plain" => nseeds <= 1) /\ (op = "mkdir" => Names0(p) # <<>>)
  /\ LET q == Names0(p) IN
     IF Refused(p, form) \/ (op # "mkdir" /\ TypeAt(q) = "dir") \/ (op = "mkdir" /\ TypeAt(q) \notin {"none", "dir"}) THEN result' = "error" /\ UNCHANGED tree
     ELSE /\ result' = "ok" /\ tree' = (IF op = "mkdir" THEN tree \o Missing(q, 1) ELSE Written(q, IF op = "write" THEN "written" ELSE "copied"))
\* whether a directory may be chosen as the app
Usable(p) == /\ nops < MaxOps /\ nops' = nops + 1 /\ act' = [n |-> "usable", p |-> p] /\ UNCHANGED <<tree, via, nseeds>>
             /\ result' = (IF \E i \in 1..Len(p) : TypeAt(SubSeq(p, 1, i)) # "dir" THEN "no" ELSE "yes")
Next == (\E p \in Places, t \in {"dir", "file"} \cup LinkKinds : Seed(p, t))
        \/ (\E o \in {"write", "copy", "mkdir"}, p \in Given, f \in Forms : Op(o, p, f))
        \/ (\E p \in Places : (\A i \in 1..(Len(p) - 1) : TypeAt(SubSeq(p, 1, i)) = "dir") /\ Usable(p))
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
\* links stay what they are, and nothing comes to lie behind one
LinksStay == [][\A i \in 1..Len(tree) : Link(tree[i].t) => (\E j \in 1..Len(tree') : tree'[j] = tree[i])]_vars
NothingBehind == \A i \in 1..Len(tree) : Len(tree[i].p) > 1 => TypeAt(Up(tree[i].p)) = "dir"
InsideOnly == \A i \in 1..Len(tree) : \A j \in 1..Len(tree[i].p) : tree[i].p[j] \in Names
AllOrNothing == [][(nops' > nops /\ result' = "error") => tree' = tree]_vars
OneChange == [][(nops' > nops) => Cardinality({i \in 1..Len(tree') : tree'[i].t \in {"written", "copied"}}) <= Cardinality({i \in 1..Len(tree) : tree[i].t \in {"written", "copied"}}) + 1]_vars
=============================================================================
