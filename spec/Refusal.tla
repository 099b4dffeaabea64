-------------------------------- MODULE Refusal --------------------------------
(***************************************************************************)
(* Judges what the real generator did with configurations: rows are        *)
(*   [cfg, mounts |-> <<[name, cfg]>>, kind |-> "Ok" | "Err" | "Panic"]    *)
(* The mounts are taken one by one; then generation must have refused      *)
(* whatever is ambiguous (C15).                                            *)
(***************************************************************************)
EXTENDS Trees, Json

CONSTANT File
Data == JsonDeserialize(File)
ASSUME TLCSet(7, Data.rows)
Row(n) == TLCGet(7)[n]

VARIABLES row, left, cfg
vars == <<row, left, cfg>>

InitR == row \in DOMAIN Data.rows /\ left = Row(row).mounts /\ cfg = Row(row).cfg
Mount == /\ row > 0 /\ left # <<>>
         /\ cfg' = Mounted(cfg, left[1].name, left[1].cfg) /\ left' = Tail(left)
         /\ UNCHANGED row
Judge == /\ row > 0 /\ left = <<>>
         /\ LET a == Ambiguities(cfg) IN
            IF a # {} /\ Row(row).kind = "Ok"
            THEN PrintT("MIS " \o ToJson([row |-> row, amb |-> a]))
            ELSE IF a # {} THEN PrintT("AMB " \o ToJson(row)) ELSE TRUE
         /\ row' = -row /\ UNCHANGED <<left, cfg>>
NextR == Mount \/ Judge
=============================================================================
