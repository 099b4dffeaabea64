------------------------------ MODULE FileTrace ------------------------------
(***************************************************************************)
(* Judges what the real parser made of files against RouteFile.            *)
(*                                                                         *)
(* Every file of the trace is an initial state; RouteFile reads it line by *)
(* line; at its end (or at the first bad line) the verdict of the real     *)
(* parser is compared under property Prop.                                 *)
(***************************************************************************)
EXTENDS RouteFile, Json

CONSTANTS File, Prop

Data == JsonDeserialize(File)
Files == Data.files
ASSUME TLCSet(7, Data.files)
FileAt(n) == TLCGet(7)[n]

VARIABLES fid, verdict
tvars == <<fvars, fid, verdict>>

F == FileAt(fid)
Count == Len(F.lines)            \* ended lines; F.rest is what follows the last line end

AtEnd == pos = Count \/ zone = "bad"
Accepts == zone # "bad" /\ pos = Count /\ Complete /\ F.rest = <<>>

(* The first line that cannot be continued to a valid file, else the end of the file *)
LastPlace == IF zone = "bad" THEN pos + 1 ELSE Count + 1

LineText(n) == IF n <= Count THEN F.lines[n] ELSE F.rest

(* a diagnostic location quotes the line (with or without the CR of its line end) *)
TruePlace(p) == /\ p.line \in 1..LastPlace
                /\ p.text \in {LineText(p.line), LineText(p.line) \o <<CR>>}

Truthful == F.places # <<>> /\ \A k \in DOMAIN F.places : TruePlace(F.places[k])

ReadsTree == F.kind = "Ok" /\ F.cfg = Spelled
SameRoutes == F.kind = "Ok" /\ F.cfg.nodes = tree

(* C11: the text printed for F.given; C20: the listing in the documentation *)
Judge ==
    CASE Prop = "C11" -> Printable(F.given) => Accepts /\ Spelled = F.given /\ ReadsTree
      [] Prop = "C12" -> Accepts => ReadsTree
      [] Prop = "C13" -> ~Accepts => F.kind = "Err" /\ Truthful
      [] Prop = "C19" -> Accepts => F.kind = "Ok" /\ F.cfg.headers = head
      [] Prop = "C20" -> Accepts /\ tree = F.given.nodes

Why == IF zone = "bad" THEN <<"bad line", pos + 1>>
       ELSE IF F.rest # <<>> THEN <<"no line end after the last line">>
       ELSE IF ~Complete THEN <<"incomplete">> ELSE <<"valid">>

Conclude == /\ verdict = "none" /\ AtEnd
            /\ verdict' = (IF Accepts THEN "valid" ELSE "invalid")
            /\ IF Judge THEN TRUE ELSE PrintT("MIS " \o ToJson([fid |-> fid, why |-> Why, want |-> Spelled]))
            /\ IF Accepts THEN PrintT("VALID " \o ToJson(fid)) ELSE TRUE
            /\ UNCHANGED <<fvars, fid>>

TInit == FInit /\ fid \in DOMAIN Files /\ verdict = "none"
TNext == \/ verdict = "none" /\ ~AtEnd /\ Read(FileAt(fid).lines[pos + 1]) /\ UNCHANGED <<fid, verdict>>
         \/ Conclude
         \/ verdict # "none" /\ UNCHANGED tvars
=============================================================================
