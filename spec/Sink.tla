--------------------------------- MODULE Sink ---------------------------------
(***************************************************************************)
(* Code generation writing to a writer that may fail (C17).                *)
(*                                                                         *)
(* The system: a generator with `full' bytes to deliver hands the writer   *)
(* the next part of its output; the writer accepts some of it, is          *)
(* interrupted, or fails; in the end the generator returns.                *)
(*                                                                         *)
(* Mode "gen" enumerates the environments: scripts of writer answers by    *)
(* call number, for generators making `calls' write calls.                 *)
(* Mode "trace" judges recorded runs of the real generator: the events are *)
(* the writer's answers, the last one the generator's return.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS File, Mode, Deep

Data == JsonDeserialize(File)
ASSUME TLCSet(7, Data.rows)
Row(n) == TLCGet(7)[n]

VARIABLES row, pos, sent, fault, phase
vars == <<row, pos, sent, fault, phase>>

InitS == /\ row \in DOMAIN Data.rows
         /\ pos = 0 /\ sent = 0 /\ fault = "none"
         /\ phase = IF Mode = "gen" THEN "script" ELSE "run"

-----------------------------------------------------------------------------
(* Environments *)
Kinds == {"BrokenPipe", "PermissionDenied", "WouldBlock", "UnexpectedEof", "Other"}
Ev(at, a, n, k) == [at |-> at, a |-> a, n |-> n, kind |-> k]
Script(ev, period, chunk) == [row |-> row, script |-> ev, period |-> period, chunk |-> chunk]
Emit(s) == PrintT("SCR " \o ToJson(s))

Calls == Row(row).calls
Fault(at, x) == IF x = "zero" THEN Ev(at, "zero", 0, "") ELSE Ev(at, "fail", 0, x)
(* every position of the first failure; the kind goes round *)
Around(at) == <<"BrokenPipe", "zero", "PermissionDenied", "WouldBlock", "Other", "UnexpectedEof">>[(at % 6) + 1]

OneFault == \E at \in 1..Calls :
    Emit(Script(<<Fault(at, Around(at))>>, 0, 0))
EachKind == \E at \in {1, 2, Calls \div 2, Calls - 1, Calls}, x \in Kinds \cup {"zero"} :
    Emit(Script(<<Fault(at, x)>>, 0, 0))
AfterInterrupt == \E at \in {n \in 2..Calls : n % 7 = 0 \/ Deep} :
    Emit(Script(<<Ev(at - 1, "interrupt", 0, ""), Fault(at, Around(at + 1))>>, 0, 0))
(* a short write first: the rest of the buffer is what fails *)
AfterShort == \E at \in {n \in 2..Calls : n % 5 = 0 \/ Deep}, n \in {1, 3} :
    Emit(Script(<<Ev(at - 1, "accept", n, ""), Fault(at, Around(at))>>, 0, 0))
(* once failed, working again *)
Chunks == {1, 2, 3, 7, 16, 100, 4096}
ShortWrites == \E c \in Chunks : Emit(Script(<<>>, 0, c))
Interrupts == \E p \in 2..6, c \in Chunks \cup {0} :
    Emit(Script(<<Ev(p, "interrupt", 0, "")>>, p, c))
Pattern == \E p \in {3, 5}, a \in {1, 4}, b \in {1, 2, 9} :
    Emit(Script(<<Ev(1, "accept", a, ""), Ev(2, "interrupt", 0, ""), Ev(3, "accept", b, "")>>, p, 0))
FaultInShort == \E c \in {1, 5, 64}, part \in 1..20 :
    Emit(Script(<<Fault(((Row(row).full * part) \div (20 * c)) + 1, Around(part))>>, 0, c))

Gen == /\ Mode = "gen" /\ phase = "script" /\ phase' = "told"
       /\ \/ OneFault \/ EachKind \/ AfterInterrupt \/ AfterShort \/ ShortWrites \/ Interrupts \/ Pattern \/ FaultInShort
       /\ UNCHANGED <<row, pos, sent, fault>>

-----------------------------------------------------------------------------
(* Runs *)
R == Row(row)
E == R.events[pos + 1]
More == Mode = "trace" /\ phase = "run" /\ pos < Len(R.events)
Next1 == pos' = pos + 1 /\ UNCHANGED <<row, phase>>

Accept == /\ More /\ E.a \in {"accept", "many"}
          /\ sent' = IF fault = "none" THEN sent + E.n ELSE sent
          /\ Next1 /\ UNCHANGED fault
Interrupt == More /\ E.a = "interrupt" /\ Next1 /\ UNCHANGED <<sent, fault>>
Fail == /\ More /\ E.a = "fail"
        /\ fault' = IF fault = "none" THEN E.kind ELSE fault
        /\ Next1 /\ UNCHANGED sent

(* What the generator may return *)
MayReturn ==
    IF fault = "none"
    THEN R.result = "Ok" /\ sent = R.full /\ R.prefix
    ELSE R.result = "Err" /\ R.errkind = fault /\ sent <= R.full /\ R.prefix

Return == /\ Mode = "trace" /\ phase = "run" /\ pos = Len(R.events)
          /\ phase' = "returned"
          /\ IF MayReturn THEN TRUE
             ELSE PrintT("MIS " \o ToJson([row |-> row, fault |-> fault, sent |-> sent]))
          /\ UNCHANGED <<row, pos, sent, fault>>

NextS == Gen \/ Accept \/ Interrupt \/ Fail \/ Return
=============================================================================
