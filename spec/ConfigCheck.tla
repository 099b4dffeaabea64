------------------------------ MODULE ConfigCheck ------------------------------
(***************************************************************************)
(* Which of the configurations in File are valid, and which ambiguities    *)
(* they have.                                                              *)
(***************************************************************************)
EXTENDS RouteConfig, Json
CONSTANT File
Data == JsonDeserialize(File)
VARIABLE k
Init == k \in DOMAIN Data
Next == /\ k > 0 /\ k' = -k
        /\ LET c == Data[k] IN
           PrintT("CHK " \o ToJson([k |-> k, valid |-> Valid(c), shape |-> ShapeOK(c), names |-> NamesOK(c),
                                    fields |-> FieldsOK(c), amb |-> Ambiguities(c)]))
=============================================================================
