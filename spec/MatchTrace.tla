------------------------------ MODULE MatchTrace ------------------------------
(***************************************************************************)
(* Judges requests answered by real generated matchers against Router.     *)
(*                                                                         *)
(* The trace file holds configurations and requests; every request is an   *)
(* initial state of Router.  When a behaviour of Router ends (phase =      *)
(* "done") its outcome is compared, under the property Prop, with what the *)
(* real matcher answered.  A disagreement with the documented outcome      *)
(* (dev = {}) prints "MIS", an agreement with the outcome of a behaviour   *)
(* that took known deviations prints "DEV".                                *)
(***************************************************************************)
EXTENDS Router, Json

CONSTANTS File, Prop

Data == JsonDeserialize(File)
TraceConfigs == Data.configs
(* computed once and kept in a TLC register *)
ASSUME TLCSet(7, [c \in DOMAIN TraceConfigs |-> View(TraceConfigs[c], Data.texts[c])])
TraceViewOf(c) == TLCGet(7)[c]
Reqs == Data.reqs

VARIABLE tid
tvars == <<rvars, tid>>

Obs == Reqs[tid]

(* The action a matched resource stands for *)
Action(o) == LET r == Configs[cid].nodes[o.node].res[o.res] IN [mods |-> r.mods, name |-> r.name]
IsMatch(kind) == kind \in {"Route", "Redirect"}
SameAction(o, s) == IsMatch(s.kind) /\ s.mods = Action(o).mods /\ s.name = Action(o).name
SameParams(o, s) ==
    /\ Len(s.params) = Len(o.params)
    /\ \A j \in DOMAIN o.params :
        \E l \in DOMAIN s.params : s.params[l].name = o.params[j].name /\ s.params[l].val = o.params[j].val

(* The matched node was reached over a static segment with a parameter beside it *)
PrefersStatic(o) ==
    LET p == PathTo(Configs[cid], o.node) IN
    \E j \in 2..Len(p) : IsStatic(Configs[cid], p[j]) /\ ViewOf(cid).dyn[p[j - 1]] # 0

DeclaredPath(c, n, vals) ==
    LET ss == Segs(Configs[c], n)
        text(j) == IF ss[j].k = "static" THEN ViewOf(c).text[PathTo(Configs[c], n)[j + 1]]
                   ELSE LET v == CHOOSE x \in SeqSet(vals) : x.name = ss[j].name IN v.val
    IN <<Slash>> \o JoinWith([j \in 1..Len(ss) |-> text(j)], <<Slash>>)

HasEmptySegment == \E j \in DOMAIN segs : segs[j] = <<>>

Full(o, s) ==
    CASE IsMatch(o.kind) -> s.kind = o.kind /\ SameAction(o, s) /\ SameParams(o, s)
      [] o.kind = "Err" -> s.kind = "Err" /\ s.err = o.param
      [] OTHER -> s.kind = o.kind

SameAnswer(s, t) ==
    /\ s.kind = t.kind /\ s.mods = t.mods /\ s.name = t.name /\ s.err = t.err
    /\ s.params = t.params

(* A route value was built from texts, printed with to_path and matched again.  *)
(* The round trip is demanded where Router itself leads back (C07).             *)
ToPathOK == Obs.tp = DeclaredPath(cid, Obs.node, Obs.given) /\ Obs.tpsame
LeadsBack(o) == o.kind = "Route" /\ o.node = Obs.node /\ o.res = Obs.res

(* Target's own declared path, for a redirect *)
TargetPath(o) ==
    LET t == CHOOSE q \in TargetsOf(Configs[cid], <<o.node, o.res>>) : TRUE
    IN DeclaredPath(cid, t[1], o.params)

Agrees(o) ==
    CASE Prop = "C01" -> IsMatch(o.kind) => SameAction(o, Obs)
      [] Prop = "C02" -> o.kind # "Err" =>
                           /\ (o.kind = "NotFound") <=> (Obs.kind = "NotFound")
                           /\ (o.kind = "NotAllowed") <=> (Obs.kind = "NotAllowed")
      [] Prop = "C03" -> (IsMatch(o.kind) /\ (o.params # <<>> \/ PrefersStatic(o))) =>
                           SameAction(o, Obs) /\ SameParams(o, Obs)
      [] Prop = "C04" -> /\ o.kind = "Err" => Obs.kind = "Err" /\ Obs.err = o.param
                         /\ o.kind \in {"Route", "Redirect", "NotFound", "NotAllowed"} => Obs.kind # "Err"
                         /\ o.kind = "Panic" => Obs.kind = "Panic"
      [] Prop = "C05" -> /\ Obs.twin # 0 => SameAnswer(Obs, Reqs[Obs.twin])
                         /\ HasEmptySegment =>
                              /\ ~IsMatch(o.kind) => ~IsMatch(Obs.kind)
                              /\ o.kind = "NotFound" => Obs.kind = "NotFound"
      [] Prop = "C06" -> o.kind # "Panic" => Obs.kind \notin {"Panic", "Hang"}
      [] Prop = "C07" -> Obs.value => ToPathOK /\ (LeadsBack(o) => Full(o, Obs) /\ Obs.eq)
      [] Prop = "C08" -> (IsMatch(o.kind) /\ IsMatch(Obs.kind)) =>
                            /\ o.kind = Obs.kind
                            /\ o.kind = "Redirect" => /\ SameAction(o, Obs) /\ SameParams(o, Obs)
                                                      /\ Obs.tp = TargetPath(o) /\ Obs.tpsame
      [] Prop = "C09" -> (IsMatch(o.kind) /\ SameAction(o, Obs)) => Obs.none
      [] OTHER -> Full(o, Obs)

(* C08 also: a declared redirect must not come back as anything but a match *)
AgreesAll(o) == Agrees(o) /\ (Prop = "C08" /\ o.kind = "Redirect" => Obs.kind = "Redirect")

Brief(o) == IF IsMatch(o.kind) THEN <<o.kind, Action(o).mods, Action(o).name, o.params>>
            ELSE IF o.kind = "Err" THEN <<"Err", o.param>> ELSE <<o.kind>>

Conclude == /\ phase = "done"
            /\ phase' = "judged"
            /\ IF dev = {}
               THEN IF AgreesAll(out) THEN TRUE ELSE PrintT("MIS " \o ToJson([tid |-> tid, want |-> Brief(out)]))
               ELSE IF ~Full(out, Obs) THEN TRUE ELSE PrintT("DEV " \o ToJson([tid |-> tid, dev |-> dev]))
            /\ UNCHANGED <<cid, path, method, at, segs, k, binds, dev, out, tid>>

TInit == /\ tid \in DOMAIN Reqs
         /\ RequestInit(Reqs[tid].c, Reqs[tid].p, Reqs[tid].m)

TNext == \/ (Correct \/ Deviate) /\ UNCHANGED tid
         \/ Conclude
         \/ phase = "judged" /\ UNCHANGED tvars

(* Every request ends: checked as absence of deadlock, since each step consumes
   a segment and only "judged" states may stutter. *)
=============================================================================
