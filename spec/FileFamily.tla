------------------------------ MODULE FileFamily ------------------------------
(***************************************************************************)
(* RouteFile explored exhaustively over a small alphabet of body lines.    *)
(*                                                                         *)
(* Every valid sequence of up to MaxLines lines is a state; from each one  *)
(* every line of the alphabet, fitting or not, is tried (a transition), so *)
(* the printed files cover every transition of the machine up to the bound.*)
(* The invariants tie the machine to the intended reading of a file.       *)
(***************************************************************************)
EXTENDS RouteFile, Json

CONSTANTS MaxLines, MaxLevel, Rich, Quiet, Sample

VARIABLES text     \* body lines read so far, as indices into Alphabet
gvars == <<fvars, text>>

(* Body lines without indentation; the first five are good ones *)
Bodies == IF Rich
    THEN <<<<71,69,84,32,65>>,                                          \* GET A
           <<112,117,116,32,45,62,32,97,58,58,66>>,                     \* put -> a::B
           <<91,113,58,32,84,93>>,                                      \* [q: T]
           <<115>>,                                                     \* s
           <<123,112,58,32,84,125>>,                                    \* {p: T}
           <<71,69,84>>,                                                \* GET
           <<71,69,84,32,32,65>>,                                       \* GET  A
           <<71,69,84,32,65,58,58>>,                                    \* GET A::
           <<91,113,58,32,84>>,                                         \* [q: T
           <<123,112,32,84,125>>,                                       \* {p T}
           <<115,32>>,                                                  \* s_
           <<47>>,                                                      \* /
           <<70,79,79,32,65>>>>                                         \* FOO A
    ELSE <<<<71,69,84,32,65>>, <<91,113,58,32,84,93>>, <<115>>, <<123,112,58,32,84,125>>>>

Alphabet == {<<n, b>> : n \in 0..(2 * MaxLevel + 1), b \in DOMAIN Bodies}
LineOf(a) == [k \in 1..a[1] |-> Space] \o Bodies[a[2]]

Init == /\ pos = 1 /\ zone = "body" /\ head = <<>> /\ tree = <<RootNode>>
        /\ stack = <<[node |-> 1, stage |-> "query"]>>
        /\ text = <<>>

Tell(t) == IF Quiet \/ (Sample > 0 /\ RandomElement(1..Sample) # 1) THEN TRUE
           ELSE PrintT("FIL " \o ToJson([k \in DOMAIN t |-> LineOf(t[k])]))

Next == /\ zone = "body" /\ Len(text) < MaxLines
        /\ \E a \in Alphabet :
            /\ Read(LineOf(a))
            /\ text' = Append(text, a)
            /\ Tell(text')

Spec == Init /\ [][Next]_gvars

-----------------------------------------------------------------------------
(* Every line is represented, under the block it is indented below, in order: *)
(* written out again, the tree gives back the very lines (letter case of the  *)
(* method and spacing inside a line aside).                                   *)
Canonical(a) == a[2] \in {1, 3, 4, 5, 6} \/ ~Rich
NothingLost ==
    zone = "body" =>
        LET p == Printed(Spelled) IN
        /\ Len(p) = Len(text) + 1
        /\ \A k \in DOMAIN text : Canonical(text[k]) => p[k + 1] = LineOf(text[k])

(* A file that may end here has no empty block *)
NoEmptyBlock ==
    (zone = "body" /\ Complete) =>
        \A n \in DOMAIN tree : tree[n].res # <<>> \/ \E m \in DOMAIN tree : tree[m].parent = n

(* A refusal is final and consumes nothing *)
BadIsFinal == [][zone = "bad" => UNCHANGED fvars]_gvars
=============================================================================
