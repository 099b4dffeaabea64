------------------------------ MODULE RouteFile ------------------------------
(***************************************************************************)
(* The route-file format as a machine that reads one line at a time.       *)
(*                                                                         *)
(* Text is a sequence of code points.  Lines come without their line ends. *)
(* The machine keeps the stack of open blocks; a line is either accepted,  *)
(* extending the tree, or makes the file unreadable for good ("bad").      *)
(*                                                                         *)
(*   file     ==  header lines, "/", body lines; every line ended          *)
(*   body     ==  [name: typ]         query parameter of block or resource *)
(*             |  METHOD [->] a::b::c resource                             *)
(*             |  name | {name: typ}  nested block, opened                 *)
(* with two spaces of indentation per level, a block's query parameters    *)
(* first, then its resources (each followed by its own query parameters    *)
(* one level deeper), then its nested blocks; no block without content.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES pos,      \* lines consumed
          zone,     \* "head" before the root line, "body" after, "bad"
          head,     \* header lines
          tree,     \* nodes in pre-order, as in RouteConfig, texts as code points
          stack     \* open blocks, outermost first: [node, stage]

fvars == <<pos, zone, head, tree, stack>>

Space == 32
Tab == 9
CR == 13
Colon == 58
Arrow == <<45, 62>>
Bar == 95

(* Letters and digits outside ASCII that occur in checked files; other     *)
(* characters above 127 that occur there are neither.                      *)
OtherLetters == {233, 223, 955, 1635, 178, 26085, 26412}

IsIdent(c) == c \in 48..57 \/ c \in 65..90 \/ c \in 97..122 \/ c = Bar \/ c \in OtherLetters
IsWs(c) == c = Space \/ c = Tab

Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c

(* End of the longest run of characters satisfying P from i on: first index after it *)
RECURSIVE IdentEnd(_, _)
IdentEnd(s, i) == IF i <= Len(s) /\ IsIdent(s[i]) THEN IdentEnd(s, i + 1) ELSE i
RECURSIVE SkipWs(_, _)
SkipWs(s, i) == IF i <= Len(s) /\ IsWs(s[i]) THEN SkipWs(s, i + 1) ELSE i
RECURSIVE SpacesEnd(_, _)
SpacesEnd(s, i) == IF i <= Len(s) /\ s[i] = Space THEN SpacesEnd(s, i + 1) ELSE i

At(s, i, c) == i <= Len(s) /\ s[i] = c

Bad == [kind |-> "bad"]
NoParam == [ok |-> FALSE]

(* name : typ  with optional space around the colon, from i on *)
ParamAt(s, i) ==
    LET a == IdentEnd(s, i)
        b == SkipWs(s, a)
        c == SkipWs(s, b + 1)
        d == IdentEnd(s, c)
    IN IF a > i /\ At(s, b, Colon) /\ d > c
       THEN [ok |-> TRUE, name |-> SubSeq(s, i, a - 1), typ |-> SubSeq(s, c, d - 1), next |-> d]
       ELSE NoParam

(* open name : typ close, filling the rest of the line *)
Enclosed(s, i, open, close) ==
    IF ~At(s, i, open) THEN NoParam
    ELSE LET p == ParamAt(s, SkipWs(s, i + 1))
         IN IF p.ok /\ SkipWs(s, p.next) = Len(s) /\ At(s, Len(s), close) THEN p ELSE NoParam

MethodWords == [GET |-> <<103, 101, 116>>, POST |-> <<112, 111, 115, 116>>,
                PUT |-> <<112, 117, 116>>, DELETE |-> <<100, 101, 108, 101, 116, 101>>]

MethodsAt(s, i) == {m \in DOMAIN MethodWords :
    LET w == MethodWords[m] IN
    /\ Len(s) >= i + Len(w) - 1
    /\ \A k \in 1..Len(w) : Lower(s[i + k - 1]) = w[k]
    /\ At(s, i + Len(w), Space)}

(* a :: b :: c up to the very end of the line *)
RECURSIVE NamesAt(_, _)
NamesAt(s, i) ==
    LET a == IdentEnd(s, i)  b == SkipWs(s, a) IN
    IF a = i THEN [ok |-> FALSE, names |-> <<>>]
    ELSE IF At(s, b, Colon) /\ At(s, b + 1, Colon)
         THEN LET r == NamesAt(s, SkipWs(s, b + 2))
              IN [ok |-> r.ok, names |-> <<SubSeq(s, i, a - 1)>> \o r.names]
         ELSE [ok |-> a = Len(s) + 1, names |-> <<SubSeq(s, i, a - 1)>>]

ResourceAt(s, i) ==
    LET ms == MethodsAt(s, i) IN
    IF ms = {} THEN Bad
    ELSE LET m == CHOOSE m \in ms : TRUE
             t == i + Len(MethodWords[m]) + 1
             u == SkipWs(s, t)
             red == At(s, u, Arrow[1]) /\ At(s, u + 1, Arrow[2])
             ns == NamesAt(s, IF red THEN SkipWs(s, u + 2) ELSE t)
         IN IF ns.ok
            THEN [kind |-> "res", method |-> m, redirect |-> red,
                  mods |-> SubSeq(ns.names, 1, Len(ns.names) - 1), name |-> ns.names[Len(ns.names)]]
            ELSE Bad

(* What a body line is, after its indentation *)
Item(s, i) ==
    LET q == Enclosed(s, i, 91, 93)  d == Enclosed(s, i, 123, 125) IN
    IF q.ok THEN [kind |-> "query", name |-> q.name, typ |-> q.typ]
    ELSE IF d.ok THEN [kind |-> "dyn", name |-> d.name, typ |-> d.typ]
    ELSE IF i <= Len(s) /\ IdentEnd(s, i) = Len(s) + 1
         THEN [kind |-> "static", text |-> SubSeq(s, i, Len(s))]
    ELSE ResourceAt(s, i)

-----------------------------------------------------------------------------
RootNode == [parent |-> 0, seg |-> [k |-> "root", text |-> <<>>, name |-> <<>>, typ |-> <<>>],
             query |-> <<>>, res |-> <<>>]

FInit == pos = 0 /\ zone = "head" /\ head = <<>> /\ tree = <<>> /\ stack = <<>>

RootLine == <<47>>
Take == pos' = pos + 1

HeaderFits(line) == zone = "head" /\ line \notin {RootLine, <<>>} /\ ~\E k \in DOMAIN line : line[k] = CR
HeaderLine(line) == /\ HeaderFits(line)
                    /\ Take /\ head' = Append(head, line) /\ UNCHANGED <<zone, tree, stack>>
BlankLine(line) == /\ zone # "bad" /\ line = <<>>
                   /\ Take /\ UNCHANGED <<zone, head, tree, stack>>
Root(line) == /\ zone = "head" /\ line = RootLine
              /\ Take /\ zone' = "body" /\ tree' = <<RootNode>>
              /\ stack' = <<[node |-> 1, stage |-> "query"]>> /\ UNCHANGED head

(* A body line: its level, and what it is *)
ItemOf(line) ==
    LET e == SpacesEnd(line, 1) IN
    IF (e - 1) % 2 = 0 THEN [level |-> (e - 1) \div 2] @@ Item(line, e)
    ELSE [level |-> 0] @@ Bad

Top == stack[Len(stack)]

(* Blocks deeper than level n are over; possible only if none of them is empty *)
Closable(n) == /\ n \in 1..Len(stack)
               /\ n < Len(stack) => Top.stage # "query"

BlockQueryFits(it) == it.kind = "query" /\ it.level = Len(stack) /\ Top.stage = "query"
ResourceQueryFits(it) == it.kind = "query" /\ it.level = Len(stack) + 1 /\ Top.stage = "res"
ResourceFits(it) == it.kind = "res" /\ Closable(it.level) /\ stack[it.level].stage # "kids"
BlockFits(it) == it.kind \in {"static", "dyn"} /\ Closable(it.level)
Fits(it) == BlockQueryFits(it) \/ ResourceQueryFits(it) \/ ResourceFits(it) \/ BlockFits(it)

BlockQueryLine(it) ==
    /\ BlockQueryFits(it)
    /\ Take
    /\ tree' = [tree EXCEPT ![Top.node].query = Append(@, [name |-> it.name, typ |-> it.typ])]
    /\ UNCHANGED <<zone, head, stack>>

ResourceQueryLine(it) ==
    /\ ResourceQueryFits(it)
    /\ Take
    /\ tree' = [tree EXCEPT ![Top.node].res[Len(tree[Top.node].res)].query =
                    Append(@, [name |-> it.name, typ |-> it.typ])]
    /\ UNCHANGED <<zone, head, stack>>

ResourceLine(it) ==
    /\ ResourceFits(it)
    /\ Take
    /\ tree' = [tree EXCEPT ![stack[it.level].node].res =
                   Append(@, [method |-> it.method, mods |-> it.mods, name |-> it.name,
                              redirect |-> it.redirect, query |-> <<>>])]
    /\ stack' = [SubSeq(stack, 1, it.level) EXCEPT ![it.level].stage = "res"]
    /\ UNCHANGED <<zone, head>>

SegOf(it) == IF it.kind = "static"
             THEN [k |-> "static", text |-> it.text, name |-> <<>>, typ |-> <<>>]
             ELSE [k |-> "dyn", text |-> <<>>, name |-> it.name, typ |-> it.typ]

BlockLine(it) ==
    /\ BlockFits(it)
    /\ Take
    /\ tree' = Append(tree, [parent |-> stack[it.level].node, seg |-> SegOf(it),
                             query |-> <<>>, res |-> <<>>])
    /\ stack' = Append([SubSeq(stack, 1, it.level) EXCEPT ![it.level].stage = "kids"],
                       [node |-> Len(tree) + 1, stage |-> "query"])
    /\ UNCHANGED <<zone, head>>

(* Anything else: nothing that follows can make a valid file of it *)
GiveUp == zone' = "bad" /\ UNCHANGED <<pos, head, tree, stack>>
RejectHeader(line) == /\ zone = "head" /\ line \notin {RootLine, <<>>} /\ ~HeaderFits(line)
                      /\ GiveUp
RejectBody(it) == ~Fits(it) /\ GiveUp

BodyLine(line) ==
    /\ zone = "body" /\ line # <<>>
    /\ \E it \in {ItemOf(line)} :
        \/ BlockQueryLine(it)
        \/ ResourceQueryLine(it)
        \/ ResourceLine(it)
        \/ BlockLine(it)
        \/ RejectBody(it)

Read(line) == BlankLine(line) \/ HeaderLine(line) \/ Root(line) \/ RejectHeader(line) \/ BodyLine(line)

-----------------------------------------------------------------------------
(* The file may end here *)
Complete == zone = "body" /\ Top.stage # "query"

Spelled == [headers |-> head, nodes |-> tree]

(***************************************************************************)
(* The canonical text of a configuration, as lines.                        *)
(***************************************************************************)
Indented(n) == [k \in 1..(2 * n) |-> Space]
ColonSp == <<Colon, Space>>
QueryText(q, lv) == Indented(lv) \o <<91>> \o q.name \o ColonSp \o q.typ \o <<93>>
SegText(s, lv) == Indented(lv) \o (IF s.k = "static" THEN s.text
                                   ELSE <<123>> \o s.name \o ColonSp \o s.typ \o <<125>>)
Upper(w) == [k \in DOMAIN w |-> w[k] - 32]
RECURSIVE Names(_)
Names(ms) == IF ms = <<>> THEN <<>> ELSE ms[1] \o <<Colon, Colon>> \o Names(Tail(ms))
ResText(r, lv) == Indented(lv) \o Upper(MethodWords[r.method]) \o <<Space>>
                    \o (IF r.redirect THEN Arrow \o <<Space>> ELSE <<>>) \o Names(r.mods) \o r.name

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>>
                ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o Ascending(S \ {x})

RECURSIVE BlockText(_, _, _)
BlockText(nodes, n, lv) ==
    LET x == nodes[n]
        ks == Ascending({m \in DOMAIN nodes : nodes[m].parent = n})
    IN [k \in DOMAIN x.query |-> QueryText(x.query[k], lv)]
       \o Flat([k \in DOMAIN x.res |->
            <<ResText(x.res[k], lv)>> \o [j \in DOMAIN x.res[k].query |-> QueryText(x.res[k].query[j], lv + 1)]])
       \o Flat([k \in DOMAIN ks |-> <<SegText(nodes[ks[k]].seg, lv)>> \o BlockText(nodes, ks[k], lv + 1)])

(* What can be written down: names are identifiers, headers single non-blank lines *)
AllIdent(s) == s # <<>> /\ \A k \in DOMAIN s : IsIdent(s[k])
PrintableParams(ps) == \A k \in DOMAIN ps : AllIdent(ps[k].name) /\ AllIdent(ps[k].typ)
Printable(cfg) ==
    /\ \A k \in DOMAIN cfg.headers :
        /\ cfg.headers[k] \notin {<<>>, RootLine}
        /\ \A j \in DOMAIN cfg.headers[k] : cfg.headers[k][j] \notin {10, CR}
    /\ \A n \in DOMAIN cfg.nodes :
        LET x == cfg.nodes[n] IN
        /\ x.seg.k = "static" => AllIdent(x.seg.text)
        /\ x.seg.k = "dyn" => AllIdent(x.seg.name) /\ AllIdent(x.seg.typ)
        /\ PrintableParams(x.query)
        /\ \A r \in DOMAIN x.res :
            /\ AllIdent(x.res[r].name)
            /\ \A j \in DOMAIN x.res[r].mods : AllIdent(x.res[r].mods[j])
            /\ PrintableParams(x.res[r].query)
        /\ x.res # <<>> \/ \E m \in DOMAIN cfg.nodes : cfg.nodes[m].parent = n

Printed(cfg) == cfg.headers \o <<RootLine>> \o BlockText(cfg.nodes, 1, 1)
=============================================================================
