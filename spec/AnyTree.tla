------------------------------- MODULE AnyTree -------------------------------
(***************************************************************************)
(* Every tree of up to MaxN blocks over a small alphabet of segments and   *)
(* lists of resources, ambiguous or not: grown one block at a time in      *)
(* pre-order, as somebody writes a configuration down.                     *)
(***************************************************************************)
EXTENDS RouteConfig, Json

CONSTANTS MaxN, Rich, Quiet, Percent   \* Percent: share of the trees to report

VARIABLES nodes, told

RootSeg == [k |-> "root", text |-> "", name |-> "", typ |-> ""]
Seg == {[k |-> "static", text |-> t, name |-> "", typ |-> ""] : t \in (IF Rich THEN {"a", "ab", "b"} ELSE {"a", "ab"})}
        \cup {[k |-> "dyn", text |-> "", name |-> n, typ |-> "u8"] : n \in {"p", "q"}}
R(m, n, red) == [method |-> m, mods |-> <<>>, name |-> n, redirect |-> red, query |-> <<>>]
(* names are made distinct by position, except X, which may be declared anywhere *)
Lists(k) == LET own == "N" \o ToString(k) IN
    {<<>>, <<R("GET", own, FALSE)>>, <<R("PUT", "X", FALSE)>>, <<R("PUT", "X", TRUE)>>,
     <<R("GET", own, FALSE), R("GET", own \o "b", FALSE)>>}
    \cup (IF Rich THEN {<<R("GET", own, FALSE), R("PUT", "X", FALSE)>>, <<R("GET", "X", TRUE), R("PUT", "X", FALSE)>>,
                        <<R("POST", own, FALSE), R("PUT", "X", TRUE), R("POST", "X", TRUE)>>} ELSE {})

Cfg == [headers |-> <<>>, nodes |-> nodes]
Ancestors == SeqSet(PathTo(Cfg, Len(nodes)))

InitT == /\ \E l \in Lists(1) : nodes = <<[parent |-> 0, seg |-> RootSeg, query |-> <<>>, res |-> l]>>
         /\ told = FALSE
Grow == /\ ~told /\ Len(nodes) < MaxN
        /\ \E p \in Ancestors, s \in Seg, l \in Lists(Len(nodes) + 1) :
             nodes' = Append(nodes, [parent |-> p, seg |-> s, query |-> <<>>, res |-> l])
        /\ UNCHANGED told
Tell == /\ ~told /\ told' = TRUE /\ UNCHANGED nodes
        /\ IF Serving(Cfg) # {} /\ ~Quiet /\ RandomElement(1..100) <= Percent
           THEN PrintT("CFG " \o ToJson(Cfg)) ELSE TRUE
NextT == Grow \/ Tell
=============================================================================
