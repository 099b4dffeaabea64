-------------------------------- MODULE Mount --------------------------------
(***************************************************************************)
(* A program that assembles configurations with mount.  `slots' are the    *)
(* configurations at hand; Do(i, name, j) replaces slot i by itself with a *)
(* copy of slot j mounted at `name' (i = j allowed: a copy of itself).     *)
(*                                                                         *)
(* Mode "gen":   TLC explores all programs up to Depth over the pools in   *)
(*               File (or simulates longer ones) and prints them.          *)
(* Mode "trace": the configurations recorded after each step of the real   *)
(*               program must be the states of this machine.               *)
(***************************************************************************)
EXTENDS Trees, Json

CONSTANTS File, Mode, Depth, Quiet

Data == JsonDeserialize(File)
ASSUME TLCSet(7, Data.rows)
Row(n) == TLCGet(7)[n]
ASSUME TLCSet(8, Data.names)
Names == {TLCGet(8)[k] : k \in DOMAIN TLCGet(8)}

VARIABLES row, slots, ops, bad
vars == <<row, slots, ops, bad>>

Pool == Row(row).pool

InitM == /\ row \in DOMAIN Data.rows
         /\ slots = Row(row).pool
         /\ ops = <<>> /\ bad = FALSE

Do(i, name, j) == slots' = [slots EXCEPT ![i] = Mounted(slots[i], name, slots[j])]

Gen == /\ Mode = "gen" /\ Len(ops) < Depth
       /\ \E i \in DOMAIN slots, j \in DOMAIN slots, name \in Names :
            /\ Do(i, name, j)
            /\ ops' = Append(ops, [i |-> i, name |-> name, j |-> j])
       /\ UNCHANGED <<row, bad>>
Show == /\ Mode = "gen" /\ Len(ops) = Depth /\ row > 0 /\ row' = -row
         /\ IF Quiet THEN TRUE ELSE PrintT("OPS " \o ToJson([row |-> row, ops |-> ops]))
         /\ UNCHANGED <<slots, ops, bad>>

Replay == /\ Mode = "trace" /\ ~bad /\ Len(ops) < Len(Row(row).ops)
          /\ LET n == Len(ops) + 1  o == Row(row).ops[n] IN
             /\ Do(o.i, o.name, o.j)
             /\ ops' = Append(ops, o)
             /\ IF Row(row).states[n] = slots'[o.i] THEN bad' = FALSE
                ELSE /\ bad' = TRUE
                     /\ PrintT("MIS " \o ToJson([row |-> row, step |-> n, want |-> slots'[o.i]]))
          /\ UNCHANGED row

NextM == Gen \/ Show \/ Replay
SpecM == InitM /\ [][NextM]_vars

-----------------------------------------------------------------------------
(* What mounting means, said without Insert: checked of every step.        *)
LastKid(c) == Max(Kids(c, 1))
Undisturbed(old, new, name, sub) ==
    \* the old blocks are exactly the blocks outside the last nested block
    /\ LastKid(new) = Len(old.nodes) + 1
    /\ SubSeq(new.nodes, 1, Len(old.nodes)) = old.nodes
    \* which holds the mounted blocks
    /\ LET b == Cut(new, LastKid(new)) IN
       /\ Len(b) = Len(sub.nodes)
       /\ b[1].seg = StaticSegment(name)
       /\ [b EXCEPT ![1].seg = sub.nodes[1].seg] = sub.nodes
    \* headers: the union, distinct, old ones first, nothing reordered
    /\ SeqSet(new.headers) = SeqSet(old.headers) \cup SeqSet(sub.headers)
    /\ Distinct(new.headers)
    /\ LET first(h) == Min({k \in DOMAIN (old.headers \o sub.headers) : (old.headers \o sub.headers)[k] = h})
       IN \A a, b \in DOMAIN new.headers : a < b => first(new.headers[a]) < first(new.headers[b])
Step == \/ slots' = slots
        \/ LET o == ops'[Len(ops')] IN
           /\ Undisturbed(slots[o.i], slots'[o.i], o.name, slots[o.j])
           /\ \A k \in DOMAIN slots : k # o.i => slots'[k] = slots[k]
Steps == [][Step]_vars
=============================================================================
