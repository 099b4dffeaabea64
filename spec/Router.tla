-------------------------------- MODULE Router --------------------------------
(***************************************************************************)
(* The generated request matcher as a state machine: one request walks     *)
(* down the tree of one configuration, one path segment per step, and ends *)
(* in an outcome.                                                          *)
(*                                                                         *)
(* The actions Descend, Bind, Miss and Answer are the documented matching  *)
(* rules.  The actions Dev* are the known deviations of the implementation *)
(* from them (see DESIGN.md, known findings); `dev' records which were     *)
(* taken, so a behaviour with dev = {} is a correct one.                   *)
(***************************************************************************)
EXTENDS RouteConfig

CONSTANTS Configs,      \* sequence of configurations
          ViewOf(_),    \* ViewOf(c) = View of Configs[c]
          Deviations    \* subset of {"K1", "K2", "K3", "K4"}

VARIABLES cid,      \* index into Configs
          path,     \* request path, bytes
          method,   \* request method, bytes
          phase,    \* "start", "walk", "done"
          at,       \* current node
          segs,     \* path segments
          k,        \* next segment
          binds,    \* parameters bound so far: [name, typ, val]
          dev,      \* deviations taken
          out       \* outcome

rvars == <<cid, path, method, phase, at, segs, k, binds, dev, out>>

Pending == [kind |-> "pending"]
NotFound == [kind |-> "NotFound"]
NotAllowed == [kind |-> "NotAllowed"]
Failure(name) == [kind |-> "Err", param |-> name]
Panic == [kind |-> "Panic"]

(* Values as they print *)
Values(b) == [j \in 1..Len(b) |-> [name |-> b[j].name, val |-> Prints(b[j].typ, b[j].val)]]

Matched(c, n, r, b) ==
    [kind |-> IF Configs[c].nodes[n].res[r].redirect THEN "Redirect" ELSE "Route",
     node |-> n, res |-> r, params |-> Values(b)]

Body(p) == IF p # <<>> /\ p[1] = Slash THEN Tail(p) ELSE p

Segments(p) ==
    LET b == Body(p) IN
    IF b = <<>> THEN <<>>
    ELSE LET s == Split(b) IN IF s[Len(s)] = <<>> THEN SubSeq(s, 1, Len(s) - 1) ELSE s

(* The path stops right behind a slash (or at the very beginning) *)
EndsOpen(p) == IF Body(p) = <<>> THEN TRUE ELSE p[Len(p)] = Slash

Node == Configs[cid].nodes[at]
V == ViewOf(cid)
MoreSegs == k <= Len(segs)
ByName == {m \in V.stat[at] : V.text[m] = segs[k]}    \* static children named like the segment

Finish(o) == phase' = "done" /\ out' = o /\ UNCHANGED <<cid, path, method, segs, k, binds, at>>

(* What a node answers to the method *)
AnswerOf(n, b) ==
    LET rs == Configs[cid].nodes[n].res
        hit == {r \in DOMAIN rs : V.meth[n][r] = method}
    IN IF rs = <<>> THEN NotFound
       ELSE IF hit = {} THEN NotAllowed
       ELSE Matched(cid, n, Min(hit), b)

-----------------------------------------------------------------------------
Start == /\ phase = "start"
         /\ phase' = "walk"
         /\ segs' = Segments(path)
         /\ UNCHANGED <<cid, path, method, at, k, binds, dev, out>>

Descend == /\ phase = "walk" /\ MoreSegs /\ ByName # {}
           /\ \E m \in ByName : at' = m
           /\ k' = k + 1
           /\ UNCHANGED <<cid, path, method, phase, segs, binds, dev, out>>

(* bind text to the parameter below n; fails when it does not parse *)
BindTo(n, text) ==
    LET seg == Configs[cid].nodes[n].seg IN
    IF Parses(seg.typ, text)
    THEN /\ at' = n /\ k' = k + 1
         /\ binds' = Append(binds, [name |-> seg.name, typ |-> seg.typ, val |-> text])
         /\ UNCHANGED <<cid, path, method, phase, segs, out>>
    ELSE Finish(Failure(seg.name))

Bind == /\ phase = "walk" /\ MoreSegs /\ ByName = {} /\ V.dyn[at] # 0
        /\ BindTo(V.dyn[at], segs[k])
        /\ UNCHANGED dev

Miss == /\ phase = "walk" /\ MoreSegs /\ ByName = {} /\ V.dyn[at] = 0
        /\ Finish(NotFound)
        /\ UNCHANGED dev

Answer == /\ phase = "walk" /\ ~MoreSegs
          /\ Finish(AnswerOf(at, binds))
          /\ UNCHANGED dev

-----------------------------------------------------------------------------
(* Static children beside a parameter: the implementation looks for their  *)
(* longest common prefix first.                                            *)
Beside == V.stat[at] # {} /\ V.dyn[at] # 0
Prefix == V.lcp[at]
PrefixIsSegment == \E m \in V.stat[at] : V.text[m] = Prefix

(* K1: the common prefix is itself a static segment; any text beginning    *)
(* with it is taken for a static segment and never for the parameter.      *)
DevCommit == /\ "K1" \in Deviations
             /\ phase = "walk" /\ MoreSegs /\ Beside /\ Prefix # <<>> /\ PrefixIsSegment
             /\ ByName = {} /\ StartsWith(segs[k], Prefix)
             /\ Finish(NotFound) /\ dev' = dev \cup {"K1"}

(* K2: the common prefix is not itself a segment; the static segments are  *)
(* unreachable, the parameter takes everything.                            *)
DevShadow == /\ "K2" \in Deviations
             /\ phase = "walk" /\ MoreSegs /\ Beside /\ Prefix # <<>> /\ ~PrefixIsSegment
             /\ ByName # {}
             /\ BindTo(V.dyn[at], segs[k]) /\ dev' = dev \cup {"K2"}

(* K3: on a block without resources of its own, a path ending behind the   *)
(* slash binds the empty text to the parameter.                            *)
DevEmptyTail == /\ "K3" \in Deviations
                /\ phase = "walk" /\ k = Len(segs) + 1 /\ EndsOpen(path)
                /\ Beside /\ Prefix # <<>> /\ Node.res = <<>>
                /\ BindTo(V.dyn[at], <<>>) /\ dev' = dev \cup {"K3"}

(* K4: a parameter text that is not UTF-8 panics. *)
BindsAt == \/ ByName = {} /\ V.dyn[at] # 0
           \/ ByName # {} /\ Beside /\ Prefix # <<>> /\ ~PrefixIsSegment
DevUtf8 == /\ "K4" \in Deviations
           /\ phase = "walk" /\ MoreSegs /\ BindsAt /\ ~IsUtf8(segs[k])
           /\ Finish(Panic) /\ dev' = dev \cup {"K4"}

-----------------------------------------------------------------------------
Correct == Start \/ Descend \/ Bind \/ Miss \/ Answer
Deviate == DevCommit \/ DevShadow \/ DevEmptyTail \/ DevUtf8
Over == phase = "done" /\ UNCHANGED rvars

RNext == Correct \/ Deviate \/ Over

RequestInit(c, p, m) ==
    /\ cid = c /\ path = p /\ method = m
    /\ phase = "start" /\ at = 1 /\ segs = <<>> /\ k = 1
    /\ binds = <<>> /\ dev = {} /\ out = Pending
=============================================================================
