----------------------------- MODULE TrieMatcher -----------------------------
(***************************************************************************)
(* The implementation's own algorithm, one level below Router: the blocks  *)
(* of a configuration are spread over a trie of characters, separators and *)
(* parameters, and the generated matcher walks the request path byte by    *)
(* byte along it.  A trie node is named by the sequence leading to it:     *)
(* bytes for characters, Sep behind every segment, Par for a parameter.    *)
(*                                                                         *)
(* One action per case of the code generator.  RouterMC checks that the    *)
(* walk ends in what Router says, the known deviations included, and they  *)
(* are: Peek (K1, K2, K3) and Take with a text that is not UTF-8 (K4).     *)
(***************************************************************************)
EXTENDS Router

Sep == 0
Par == -1

(* Key of every block *)
RECURSIVE KeyOf(_, _, _)
KeyOf(cfg, txt, n) ==
    IF n = 1 THEN <<>>
    ELSE KeyOf(cfg, txt, cfg.nodes[n].parent)
           \o (IF IsStatic(cfg, n) THEN txt[n] ELSE <<Par>>) \o <<Sep>>

PrefixesOf(s) == {SubSeq(s, 1, j) : j \in 0..Len(s)}

TrieOf(cfg, txt) == TLCEval(
    LET key == [n \in NodesOf(cfg) |-> KeyOf(cfg, txt, n)]
        all == UNION {PrefixesOf(key[n]) : n \in NodesOf(cfg)}
    IN [p \in all |->
          [kids |-> {key[n][Len(p) + 1] : n \in {m \in NodesOf(cfg) : Len(key[m]) > Len(p) /\ StartsWith(key[m], p)}},
           data |-> LET d == {n \in NodesOf(cfg) : key[n] = p} IN IF d = {} THEN 0 ELSE Min(d),
           \* the block whose parameter is taken here
           dyn |-> LET d == {n \in NodesOf(cfg) : key[n] = p \o <<Par, Sep>>} IN IF d = {} THEN 0 ELSE Min(d)]])

CONSTANT TrieAt(_)      \* TrieAt(c) = TrieOf(Configs[c], ...)

VARIABLES tnode,    \* where in the trie
          ti,       \* bytes of the path consumed
          tmode,    \* "idle", "node", "sep", "dyn", "done"
          tbinds,
          tout
tvars == <<tnode, ti, tmode, tbinds, tout>>

T == TrieAt(cid)
Here == T[tnode]
AtEnd == ti = Len(path)
ByteNow == path[ti + 1]
Serves(p) == T[p].data # 0 /\ Configs[cid].nodes[T[p].data].res # <<>>

THalt(o) == tmode' = "done" /\ tout' = o /\ UNCHANGED <<tnode, ti, tbinds>>
TGo(p, j, mode) == tnode' = p /\ ti' = j /\ tmode' = mode /\ UNCHANGED <<tbinds, tout>>

AnswerAt(p) == IF Serves(p) THEN AnswerOf(T[p].data, tbinds) ELSE NotFound

(* Only child after only child, as long as they are characters *)
RECURSIVE RunFrom(_)
RunFrom(p) == IF Cardinality(T[p].kids) = 1 /\ \A ch \in T[p].kids : ch > 0
              THEN LET ch == CHOOSE x \in T[p].kids : TRUE IN <<ch>> \o RunFrom(Append(p, ch))
              ELSE <<>>

(* The look-ahead beside a parameter: characters up to the first choice, and
   how far it was looked *)
RECURSIVE Ahead(_)
Ahead(p) == IF Sep \in T[p].kids THEN [s |-> <<>>, l |-> 0]
            ELSE LET cs == {ch \in T[p].kids : ch > 0} IN
                 IF Cardinality(cs) # 1 THEN [s |-> <<>>, l |-> 1]
                 ELSE LET ch == CHOOSE x \in cs : TRUE  r == Ahead(Append(p, ch))
                      IN [s |-> <<ch>> \o r.s, l |-> r.l + 1]

(* Whole static segments from a node on *)
RECURSIVE WholeFrom(_)
WholeFrom(p) == (IF Sep \in T[p].kids THEN {<<>>} ELSE {}) \cup
                UNION {{<<ch>> \o r : r \in WholeFrom(Append(p, ch))} : ch \in {x \in T[p].kids : x > 0}}

Reads(s) == ti + Len(s) <= Len(path) /\ SubSeq(path, ti + 1, ti + Len(s)) = s
Bounded(s) == ti + Len(s) = Len(path) \/ path[ti + Len(s) + 1] = Slash

TStart == /\ tmode = "idle" /\ phase = "done"
          /\ TGo(<<>>, IF path # <<>> /\ path[1] = Slash THEN 1 ELSE 0, "node")

OnNode == tmode = "node"
Several == Cardinality(Here.kids) > 1
HasPar == Par \in Here.kids
PeekHere == Ahead(tnode)
Peeks == Several /\ HasPar /\ PeekHere.s # <<>>
Chooses == Several /\ HasPar /\ PeekHere.s = <<>>

(* the path ends on a block with resources *)
EndHere == OnNode /\ AtEnd /\ Serves(tnode) /\ THalt(AnswerAt(tnode))
Past == OnNode /\ ~(AtEnd /\ Serves(tnode))

Leaf == Past /\ Here.kids = {} /\ THalt(NotFound)

OnlySep == Past /\ Here.kids = {Sep} /\ TGo(tnode, ti, "sep")

(* a segment is complete: the path ends or a slash follows *)
Behind == tmode = "sep"
SepEnd == Behind /\ AtEnd /\ THalt(AnswerAt(Append(tnode, Sep)))
SepStep == Behind /\ ~AtEnd /\ IF ByteNow = Slash THEN TGo(Append(tnode, Sep), ti + 1, "node") ELSE THalt(NotFound)

OnlyChars == /\ Past /\ Cardinality(Here.kids) = 1 /\ \A ch \in Here.kids : ch > 0
             /\ LET s == RunFrom(tnode)
                IN IF Reads(s) THEN TGo(tnode \o s, ti + Len(s), "node") ELSE THalt(NotFound)

OnlyPar == Past /\ Here.kids = {Par} /\ IF AtEnd THEN THalt(NotFound) ELSE TGo(tnode, ti, "dyn")

Peek == /\ Past /\ Peeks
        /\ LET a == PeekHere
           IN IF ti + a.l <= Len(path) /\ Len(a.s) = a.l /\ Reads(a.s)
              THEN TGo(tnode \o a.s, ti + a.l, "node")
              ELSE TGo(tnode, ti, "dyn")

Choose == /\ Past /\ Chooses
          /\ IF AtEnd THEN THalt(NotFound)
             ELSE LET hit == {s \in WholeFrom(tnode) : s # <<>> /\ Reads(s) /\ Bounded(s)}
                  IN IF hit = {} THEN TGo(tnode, ti, "dyn")
                     ELSE LET s == CHOOSE s \in hit : TRUE IN TGo(tnode \o s, ti + Len(s), "sep")

Fork == /\ Past /\ Several /\ ~HasPar
        /\ IF AtEnd THEN THalt(IF Sep \in Here.kids THEN AnswerAt(Append(tnode, Sep)) ELSE NotFound)
           ELSE IF ByteNow \in {x \in Here.kids : x > 0} THEN TGo(Append(tnode, ByteNow), ti + 1, "node")
           ELSE IF ByteNow = Slash /\ Sep \in Here.kids THEN TGo(Append(tnode, Sep), ti + 1, "node")
           ELSE THalt(NotFound)

(* read up to the next slash and parse *)
SlashFrom(j) == LET at_ == {q \in (j + 1)..Len(path) : path[q] = Slash}
                IN IF at_ = {} THEN Len(path) ELSE Min(at_) - 1
Take == /\ tmode = "dyn"
        /\ LET e == SlashFrom(ti)  text == SubSeq(path, ti + 1, e)  seg == Configs[cid].nodes[Here.dyn].seg
           IN IF ~IsUtf8(text) THEN THalt(Panic)
              ELSE IF ~Parses(seg.typ, text) THEN THalt(Failure(seg.name))
              ELSE /\ tnode' = Append(tnode, Par) /\ ti' = e /\ tmode' = "node"
                   /\ tbinds' = Append(tbinds, [name |-> seg.name, typ |-> seg.typ, val |-> text])
                   /\ UNCHANGED tout

TStep == \/ EndHere \/ Leaf \/ OnlySep \/ SepEnd \/ SepStep \/ OnlyChars \/ OnlyPar
         \/ Peek \/ Choose \/ Fork \/ Take

TIdle == tnode = <<>> /\ ti = 0 /\ tmode = "idle" /\ tbinds = <<>> /\ tout = Pending
=============================================================================
