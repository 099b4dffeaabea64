----------------------------- MODULE ConfigFamily -----------------------------
(***************************************************************************)
(* Bounded exhaustive families of configurations around one block: every   *)
(* set of static children over a small vocabulary of overlapping texts,    *)
(* with or without a parameter beside them, for every shape of what is     *)
(* below them, in several surroundings.  TLC enumerates them all.          *)
(***************************************************************************)
EXTENDS RouteConfig, Json, Randomization

CONSTANTS Vocab, MaxStatics, Quiet,
          Sample    \* number of members to pick at random; 0: all of them

VARIABLES around, statics, dyn, own, shape, done

fvars == <<around, statics, dyn, own, shape, done>>

Arounds == {"root", "static", "dyn", "sibling", "prefix", "parent"}
Dyns == {"none", "String", "u8", "bool"}
Shapes == {"leaf", "deep", "both", "param", "mixed"}

RootSeg == [k |-> "root", text |-> "", name |-> "", typ |-> ""]
StaticSeg(t) == [k |-> "static", text |-> t, name |-> "", typ |-> ""]
DynSeg(n, t) == [k |-> "dyn", text |-> "", name |-> n, typ |-> t]
Res(m, n) == [method |-> m, mods |-> <<>>, name |-> n, redirect |-> FALSE, query |-> <<>>]
Node(p, s, r) == [parent |-> p, seg |-> s, query |-> <<>>, res |-> r]

(* What stands below a child with index i of parent p, at position n *)
Branch(p, n, seg, sh, i) ==
    LET a == "A" \o ToString(n)  b == "B" \o ToString(n)  s == Node(p, seg, <<Res("GET", a)>>) IN
    CASE sh = "leaf" -> <<s>>
      [] sh = "deep" -> <<Node(p, seg, <<>>), Node(n, StaticSeg("z"), <<Res("GET", b)>>)>>
      [] sh = "both" -> <<Node(p, seg, <<Res("GET", a), Res("PUT", b)>>),
                          Node(n, StaticSeg("z"), <<Res("POST", "C" \o ToString(n))>>)>>
      [] sh = "param" -> <<Node(p, seg, <<>>), Node(n, DynSeg("q", "u8"), <<Res("GET", b)>>)>>

ShapeFor(sh, i) == IF sh = "mixed" THEN <<"leaf", "deep", "param", "both">>[(i % 4) + 1] ELSE sh

RECURSIVE Branches(_, _, _, _)
Branches(p, ns, segs, i) ==
    IF segs = <<>> THEN ns
    ELSE Branches(p, ns \o Branch(p, Len(ns) + 1, segs[1], ShapeFor(shape, i), i), Tail(segs), i + 1)

RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetSeq(S \ {x})

Children ==
    LET st == SetSeq(statics)  d == IF dyn = "none" THEN <<>> ELSE <<DynSeg("p", dyn)>>
        half == Len(st) \div 2
    IN [k \in 1..half |-> StaticSeg(st[k])] \o d \o [k \in 1..(Len(st) - half) |-> StaticSeg(st[half + k])]

Own == IF own THEN <<Res("GET", "Own")>> ELSE <<>>

Cfg ==
    LET pre ==
        CASE around = "root" -> <<Node(0, RootSeg, Own)>>
          [] around = "static" -> <<Node(0, RootSeg, <<>>), Node(1, StaticSeg("up"), Own)>>
          [] around = "dyn" -> <<Node(0, RootSeg, <<>>), Node(1, DynSeg("u", "String"), Own)>>
          [] around = "sibling" -> <<Node(0, RootSeg, <<>>), Node(1, StaticSeg("u"), <<Res("GET", "U")>>),
                                     Node(1, StaticSeg("up"), Own)>>
            [] around = "prefix" -> <<Node(0, RootSeg, <<>>), Node(1, StaticSeg("up"), <<Res("GET", "U")>>),
                                    Node(1, StaticSeg("u"), Own)>>
          [] around = "parent" -> <<Node(0, RootSeg, <<Res("GET", "Top")>>), Node(1, DynSeg("u", "u8"), <<Res("GET", "U")>>),
                                    Node(2, DynSeg("v", "String"), Own)>>
    IN [headers |-> <<>>, nodes |-> Branches(Len(pre), pre, Children, 1)]

Family == [around : Arounds, dyn : Dyns, own : BOOLEAN, shape : Shapes,
           statics : {s \in SUBSET Vocab : Cardinality(s) <= MaxStatics}]

Init == \E f \in (IF Sample = 0 THEN Family ELSE RandomSubset(Sample, Family)) :
            /\ around = f.around /\ dyn = f.dyn /\ own = f.own /\ shape = f.shape /\ statics = f.statics
            /\ f.statics # {} \/ f.dyn # "none"
            /\ done = FALSE

Next == /\ ~done /\ done' = TRUE
        /\ IF Quiet THEN TRUE ELSE PrintT("CFG " \o ToJson(Cfg))
        /\ UNCHANGED <<around, statics, dyn, own, shape>>

AllValid == Valid(Cfg)
=============================================================================
