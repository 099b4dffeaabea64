-------------------------------- MODULE Trees --------------------------------
(***************************************************************************)
(* Editing configurations in their flat pre-order form: inserting a        *)
(* subtree, cutting one out, mounting one configuration in another.        *)
(***************************************************************************)
EXTENDS RouteConfig

RECURSIVE Within(_, _, _)
Within(cfg, m, n) == m = n \/ (m # 0 /\ Within(cfg, cfg.nodes[m].parent, n))

(* First index after the subtree of n *)
EndOf(cfg, n) == LET later == {m \in (n + 1)..Len(cfg.nodes) : ~Within(cfg, m, n)}
                 IN IF later = {} THEN Len(cfg.nodes) + 1 ELSE Min(later)

(* The subtree of n on its own, its first node without parent *)
Cut(cfg, n) == [k \in 1..(EndOf(cfg, n) - n) |->
                   [cfg.nodes[n + k - 1] EXCEPT !.parent = IF k = 1 THEN 0 ELSE @ - n + 1]]

(* `sub' becomes the pos-th nested block of n, 1 <= pos <= number of nested blocks + 1 *)
Insert(cfg, n, pos, sub) ==
    LET ks == KidSeq(cfg, n)
        i == IF pos <= Len(ks) THEN ks[pos] ELSE EndOf(cfg, n)
        s == Len(sub)
        Moved(x) == [x EXCEPT !.parent = IF @ >= i THEN @ + s ELSE @]
        Placed(k) == [sub[k] EXCEPT !.parent = IF k = 1 THEN n ELSE @ + i - 1]
    IN [cfg EXCEPT !.nodes =
          [k \in 1..(i - 1) |-> cfg.nodes[k]] \o [k \in 1..s |-> Placed(k)]
            \o [k \in 1..(Len(cfg.nodes) - i + 1) |-> Moved(cfg.nodes[i + k - 1])]]

(* Each once, in order of first appearance *)
RECURSIVE Once(_)
Once(seq) == IF seq = <<>> THEN <<>>
             ELSE LET before == SubSeq(seq, 1, Len(seq) - 1)  x == seq[Len(seq)]
                  IN IF x \in SeqSet(before) THEN Once(before) ELSE Append(Once(before), x)

StaticSegment(t) == [k |-> "static", text |-> t, name |-> "", typ |-> ""]
DynSegment(n, t) == [k |-> "dyn", text |-> "", name |-> n, typ |-> t]

Mounted(cfg, name, sub) ==
    LET c == [cfg EXCEPT !.headers = Once(@ \o sub.headers)]
        s == [sub.nodes EXCEPT ![1].seg = StaticSegment(name)]
    IN Insert(c, 1, Cardinality(Kids(cfg, 1)) + 1, s)
=============================================================================
