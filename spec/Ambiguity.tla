------------------------------ MODULE Ambiguity ------------------------------
(***************************************************************************)
(* Every way to make a valid configuration ambiguous by one edit: a second *)
(* static block of the same name, a second parameter, a second resource    *)
(* for a method, a second declaration of a served name; at every place,    *)
(* before or after the other one, itself or as a redirect, also by         *)
(* mounting.  And edits that look alike without being ambiguous.           *)
(*                                                                         *)
(* Starting from each configuration in File, TLC takes each edit; `prev'   *)
(* is replayed through mount, the rest as plain values.                    *)
(***************************************************************************)
EXTENDS Trees, Json, TLC

CONSTANTS File, Quiet
Data == JsonDeserialize(File)
ASSUME TLCSet(7, Data)

VARIABLES base, kind, cfg, mount
vars == <<base, kind, cfg, mount>>
B == TLCGet(7)[base]
None == [name |-> "", cfg |-> [headers |-> <<>>, nodes |-> <<>>]]

Served(m, name) == [method |-> m, mods |-> <<>>, name |-> name, redirect |-> FALSE, query |-> <<>>]
Block(seg, rs) == [parent |-> 0, seg |-> seg, query |-> <<>>, res |-> rs]
Inner(p, seg, rs) == [parent |-> p, seg |-> seg, query |-> <<>>, res |-> rs]

InitE == base \in DOMAIN Data /\ kind = "valid" /\ cfg = B /\ mount = None

Edit(k, c) == /\ kind = "valid"
              /\ kind' = k /\ cfg' = c
              /\ IF Quiet THEN TRUE
                 ELSE PrintT("AMB " \o ToJson([base |-> base, kind |-> k, cfg |-> c]))
              /\ UNCHANGED <<base, mount>>

Positions(n) == 1..(Cardinality(Kids(B, n)) + 1)

(* Forms of a second block with the given first segment *)
Forms(seg) == { <<Block(seg, <<Served("GET", "Zz9")>>)>>,
                <<Block(seg, <<>>), Inner(1, StaticSegment("zz9"), <<Served("PUT", "Zz9")>>)>>,
                <<Block(seg, <<>>)>> }

TwinStatic ==
    \E n \in NodesOf(B) : \E k \in StaticKids(B, n) : \E pos \in Positions(n) :
    \E f \in Forms(B.nodes[k].seg) : Edit("twin static", Insert(B, n, pos, f))

(* The whole block once more, with redirects in place of its resources *)
ToRedirects(sub) == [k \in DOMAIN sub |-> [sub[k] EXCEPT !.res =
                        [r \in DOMAIN @ |-> [@[r] EXCEPT !.redirect = TRUE, !.query = <<>>]]]]
TwinRedirects ==
    \E n \in NodesOf(B) : \E k \in Kids(B, n) : \E pos \in Positions(n) :
        /\ \A m \in k..(EndOf(B, k) - 1) : \A r \in DOMAIN B.nodes[m].res : B.nodes[m].res[r].query = <<>>
        /\ Edit("twin of redirects", Insert(B, n, pos, ToRedirects(Cut(B, k))))

TwinParam ==
    \E n \in NodesOf(B) : \E k \in Kids(B, n) : \E pos \in Positions(n) :
        /\ IsDyn(B, k)
        /\ \E nm \in {B.nodes[k].seg.name, "zz9"}, t \in {B.nodes[k].seg.typ, "u8", "String"} :
           \E f \in Forms(DynSegment(nm, t)) : Edit("second parameter", Insert(B, n, pos, f))

TwoParams ==
    \E n \in NodesOf(B) : \E pos \in Positions(n) : \E t \in {"u8", "String"} :
        /\ ~\E k \in Kids(B, n) : IsDyn(B, k)
        /\ \E nm \in {"zz9", "yy9"} :
           LET one == Insert(B, n, pos, <<Block(DynSegment("zz9", "u8"), <<Served("GET", "Zz9")>>)>>)
           IN \E q \in {1, Cardinality(Kids(B, n)) + 2} :
              Edit("two parameters", Insert(one, n, q, <<Block(DynSegment(nm, t), <<Served("GET", "Yy9")>>)>>))

PutRes(c, n, pos, r) == [c EXCEPT !.nodes[n].res = SubSeq(@, 1, pos - 1) \o <<r>> \o SubSeq(@, pos, Len(@))]

FieldsHere(n) == {<<"path", p.name, p.typ>> : p \in SeqSet(PathParams(B, n))} \cup
                 {<<"query", p.name, p.typ>> : p \in SeqSet(BlockQuery(B, n))}
(* Something a redirect on block n can name *)
Reachable(n) == {pl \in Serving(B) : FieldSet(B, pl) = FieldsHere(n)}

TwinMethod ==
    \E n \in NodesOf(B) : \E m \in {r.method : r \in SeqSet(B.nodes[n].res)} :
    \E pos \in 1..(Len(B.nodes[n].res) + 1) :
    \E r \in {Served(m, "Zz9")} \cup {[ResAt(B, pl) EXCEPT !.method = m, !.redirect = TRUE, !.query = <<>>] : pl \in Reachable(n)} :
        Edit("second " \o m, PutRes(B, n, pos, r))

TwinAction ==
    \E pl \in Serving(B) : \E n \in NodesOf(B) :
    \E m \in Methods \ {r.method : r \in SeqSet(B.nodes[n].res)} :
    \E pos \in {1, Len(B.nodes[n].res) + 1} :
        Edit("second declaration", PutRes(B, n, pos, [ResAt(B, pl) EXCEPT !.method = m, !.query = <<>>]))

(* A module not there yet *)
NewModule == IF \E pl \in Serving(B) : "Zz9" \in SeqSet(ResAt(B, pl).mods) THEN "Zz8" ELSE "Zz9"

(* Not ambiguous: a redirect to it, the same name in another module, the same segment elsewhere *)
Alike ==
    \/ \E n \in NodesOf(B) : \E pl \in Reachable(n) : \E m \in Methods \ {r.method : r \in SeqSet(B.nodes[n].res)} :
          Edit("redirect", PutRes(B, n, Len(B.nodes[n].res) + 1, [ResAt(B, pl) EXCEPT !.method = m, !.redirect = TRUE, !.query = <<>>]))
    \/ \E n \in NodesOf(B) : \E pl \in Serving(B) : \E m \in Methods \ {r.method : r \in SeqSet(B.nodes[n].res)} :
          Edit("other module", PutRes(B, n, 1, [ResAt(B, pl) EXCEPT !.method = m, !.mods = Append(@, NewModule), !.query = <<>>]))
    \/ \E n \in NodesOf(B) : \E t \in {B.nodes[k].seg.text : k \in {j \in NodesOf(B) : IsStatic(B, j)}} :
          /\ ~\E k \in StaticKids(B, n) : B.nodes[k].seg.text = t
          /\ \E pos \in Positions(n) : Edit("elsewhere", Insert(B, n, pos, <<Block(StaticSegment(t), <<Served("GET", "Zz9")>>)>>))

NextE == TwinStatic \/ TwinRedirects \/ TwinParam \/ TwoParams \/ TwinMethod \/ TwinAction \/ Alike

(* Where the edits start from the first time; the second time, from configurations already edited *)
FromValid == Ambiguities(B) = {}

(* What the edits are meant to be *)
Meant ==
    /\ kind = "twin static" => DuplicateStatic(cfg)
    /\ kind \in {"second parameter", "two parameters"} => SiblingParameters(cfg)
    /\ kind = "twin of redirects" => DuplicateStatic(cfg) \/ SiblingParameters(cfg)
    /\ kind = "second declaration" => DuplicateAction(cfg)
    /\ kind \in {"redirect", "other module", "elsewhere", "valid"} => (FromValid => Ambiguities(cfg) = {})
WellFormed == Ambiguities(cfg) \in SUBSET {"static", "params", "method", "action"}
=============================================================================
