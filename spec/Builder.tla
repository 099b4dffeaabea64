------------------------------- MODULE Builder -------------------------------
(***************************************************************************)
(* A build script: a sequence of builder calls ending in build(), in an    *)
(* environment (variables, files, standard output, room on the device).    *)
(* build() itself is a machine of steps, each of which may end the process *)
(* (C18).                                                                  *)
(*                                                                         *)
(* The world: three directories - "cwd", where the process runs, "man",    *)
(* the manifest directory, "out", the output directory - with input files  *)
(* of the same names but different contents, so that reading the wrong one *)
(* shows.                                                                  *)
(*                                                                         *)
(* Mode "gen" prints every program up to MaxCalls calls in every           *)
(* environment; mode "trace" runs the recorded programs and compares what  *)
(* real processes did.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS File, Mode, MaxCalls, Percent, Quiet

Data == JsonDeserialize(File)
ASSUME TLCSet(7, Data.rows)
Row(n) == TLCGet(7)[n]

VARIABLES row,
          world,     \* [manifest, outdir, stdout, room, before]: before - what the existing output file holds
          ctor, calls,
          source, target,     \* <<>> or <<[k, name]>>
          phase,     \* "calls", "source", "target", "read", "parse", "create", "generate", "ended"
          parsed,    \* input read and parsed (or given as a value)
          touched,   \* the output was opened for writing
          announced, \* input files announced to Cargo: <<dir, name>>
          status, delivered

vars == <<row, world, ctor, calls, source, target, phase, parsed, touched, announced, status, delivered>>

Inputs == {"good", "nested", "odd", "up", "onlyman", "onlycwd", "bad", "empty", "utf", "ambig", "clash", "twins", "missing", "dirin", "abs"}
Values == {"D", "ambig", "clash", "twins"}
(* inputs no code is generated for *)
Refused == {"ambig", "clash", "twins"}
Outputs == {"new", "old", "abs", "sub", "odd", "readonly", "nodir", "dirout", "full", "over"}

(* What stands in input file `name' of directory d: the name of the        *)
(* configuration it spells, or why there is none                           *)
Content(d, name) ==
    CASE name \in {"good", "nested", "odd", "abs"} -> (CASE d = "man" -> "A" [] d = "cwd" -> "B" [] d = "out" -> "C" [] OTHER -> "missing")
      [] name = "up" -> (IF d = "man" THEN "D" ELSE "missing")      \* named by way of the parent directory
      [] name = "onlyman" -> (IF d = "man" THEN "A" ELSE "missing")
      [] name = "onlycwd" -> (IF d = "cwd" THEN "B" ELSE "missing")
      [] name \in {"bad", "empty"} -> (IF d = "gone" THEN "missing" ELSE "unparsable")
      [] name = "utf" -> (IF d = "gone" THEN "missing" ELSE "unreadable")
      [] name \in Refused -> (IF d = "gone" THEN "missing" ELSE name)
      [] name = "missing" -> "missing"
      [] name = "dirin" -> (IF d = "gone" THEN "missing" ELSE "unreadable")

SourceDir(name) == IF name = "abs" THEN "out" ELSE IF ctor = "new" THEN (IF name = "up" THEN "man" ELSE "cwd")
                   ELSE IF world.manifest = "gone" THEN "gone" ELSE "man"
TargetDir(name) == CASE name = "abs" -> "cwd" [] name = "full" -> "dev" [] name = "over" -> "man"
                     [] OTHER -> IF ctor = "new" THEN "cwd" ELSE IF world.outdir = "gone" THEN "gone" ELSE "out"
Creatable(name) == name \notin {"nodir", "dirout", "readonly"} /\ TargetDir(name) # "gone"
(* There is no room for the code where it goes *)
FullTarget(t) == \/ t.k = "file" /\ t.name = "full"
                 \/ t.k = "stdout" /\ world.stdout # "pipe"
                 \/ world.room = "less" /\ ~(t.k = "stdout" /\ world.stdout = "pipe")

Worlds ==
    {w \in [manifest : {"set", "unset", "nonunicode", "gone"}, outdir : {"set", "unset", "nonunicode", "gone"},
            stdout : {"pipe", "full", "broken", "file"}, room : {"all", "less"},
            before : {"short", "long", "other", "equal", "current", "start"}] :
        \* one thing wrong at a time; standard output to a file is for the lack of room
        /\ Cardinality({x \in {"manifest", "outdir"} : w[x] # "set"}) + (IF w.stdout \in {"full", "broken"} THEN 1 ELSE 0)
             + (IF w.room = "less" THEN 1 ELSE 0) <= 1
        /\ w.stdout = "file" => w.room = "less"
        \* contents of the existing output other than a short text: longer than the code to come,
        \* the code of another configuration, as long as the code, the code itself, a part of it
        /\ w.before # "short" => w.manifest = "set" /\ w.outdir = "set" /\ w.stdout = "pipe"}

InitB == /\ IF Mode = "gen" THEN row = 0 /\ world \in Worlds ELSE row \in DOMAIN Data.rows /\ world = Row(row).world
         /\ ctor = "" /\ calls = <<>> /\ source = <<>> /\ target = <<>>
         /\ phase = "calls" /\ parsed = FALSE /\ touched = FALSE /\ announced = {} /\ status = "" /\ delivered = "nothing"

Say(call, arg) == [call |-> call, arg |-> arg]
(* In trace mode only the recorded call may be made *)
May(call, arg) == /\ phase = "calls"
                  /\ Mode = "trace" => LET n == Len(calls) + 1 IN n <= Len(Row(row).calls) /\ Row(row).calls[n] = Say(call, arg)
                  /\ calls' = Append(calls, Say(call, arg))

End(s) == phase' = "ended" /\ status' = s

New == /\ calls = <<>> /\ May("new", "") /\ ctor' = "new"
       /\ UNCHANGED <<row, world, source, target, phase, parsed, touched, announced, status, delivered>>
FromEnv == /\ calls = <<>> /\ May("from_env", "") /\ ctor' = "from_env"
           /\ IF world.manifest \in {"unset", "nonunicode"} \/ world.outdir \in {"unset", "nonunicode"}
              THEN End("failed") ELSE UNCHANGED <<phase, status>>
           /\ UNCHANGED <<row, world, source, target, parsed, touched, announced, delivered>>

Open == ctor # "" /\ (Mode = "gen" => Len(calls) <= MaxCalls)
InputFile(x) == /\ Open /\ May("input_file", x) /\ source' = <<[k |-> "file", name |-> x]>>
                /\ UNCHANGED <<row, world, ctor, target, phase, parsed, touched, announced, status, delivered>>
InputConfig(x) == /\ Open /\ May("input_config", x) /\ source' = <<[k |-> "config", name |-> x]>>
                  /\ UNCHANGED <<row, world, ctor, target, phase, parsed, touched, announced, status, delivered>>
OutputFile(x) == /\ Open /\ May("output_file", x) /\ target' = <<[k |-> "file", name |-> x]>>
                 /\ UNCHANGED <<row, world, ctor, source, phase, parsed, touched, announced, status, delivered>>
OutputStdout == /\ Open /\ May("output_stdout", "") /\ target' = <<[k |-> "stdout", name |-> ""]>>
                /\ UNCHANGED <<row, world, ctor, source, phase, parsed, touched, announced, status, delivered>>

Build == /\ ctor # "" /\ May("build", "")
         /\ IF source = <<>> \/ target = <<>> THEN End("failed")
            ELSE phase' = "read" /\ UNCHANGED status
         /\ UNCHANGED <<row, world, ctor, source, target, parsed, touched, announced, delivered>>

Src == source[1]
Tgt == target[1]
Held == IF Src.k = "config" THEN Src.name ELSE Content(SourceDir(Src.name), Src.name)

Read == /\ phase = "read"
        /\ announced' = IF Src.k = "file" /\ ctor = "from_env" THEN {<<SourceDir(Src.name), Src.name>>} ELSE {}
        /\ IF \/ Src.k = "file" /\ Held \in {"missing", "unreadable"}
              \/ Src.k = "file" /\ ctor = "from_env" /\ world.stdout # "pipe" /\ world.stdout # "file"
           THEN End("failed") ELSE phase' = "parse" /\ UNCHANGED status
        /\ UNCHANGED <<row, world, ctor, calls, source, target, parsed, touched, delivered>>
Parse == /\ phase = "parse"
         /\ IF Held = "unparsable" THEN End("failed") /\ UNCHANGED parsed
            ELSE phase' = "create" /\ parsed' = TRUE /\ UNCHANGED status
         /\ UNCHANGED <<row, world, ctor, calls, source, target, touched, announced, delivered>>
Create == /\ phase = "create"
          /\ IF Tgt.k = "file" /\ ~Creatable(Tgt.name) THEN End("failed") /\ UNCHANGED touched
             ELSE phase' = "generate" /\ touched' = TRUE /\ UNCHANGED status
          /\ UNCHANGED <<row, world, ctor, calls, source, target, parsed, announced, delivered>>
Generate == /\ phase = "generate"
            /\ IF Held \in Refused \/ FullTarget(Tgt) THEN End("failed") /\ UNCHANGED delivered
               ELSE End("ok") /\ delivered' = Held
            /\ UNCHANGED <<row, world, ctor, calls, source, target, parsed, touched, announced>>

-----------------------------------------------------------------------------
(* What the machine guarantees, in terms of the property *)
LastOf(kinds) == LET S == {k \in DOMAIN calls : calls[k].call \in kinds}
                 IN IF S = {} THEN [call |-> "none", arg |-> ""] ELSE calls[CHOOSE k \in S : \A j \in S : j <= k]
Guarantee ==
    phase = "ended" =>
      /\ status \in {"ok", "failed"}
      /\ (status = "ok") <=> (delivered # "nothing")
      /\ status = "ok" => /\ delivered \in {"A", "B", "C", "D"}
                          /\ LET i == LastOf({"input_file", "input_config"})  o == LastOf({"output_file", "output_stdout"}) IN
                             /\ i.call # "none" /\ o.call # "none"
                             /\ i.call = "input_config" => delivered = i.arg
                             /\ i.call = "input_file" => delivered = Content(SourceDir(i.arg), i.arg)
      /\ touched => parsed
      /\ (ctor = "from_env" /\ source # <<>> /\ target # <<>> /\ Src.k = "file" /\ calls[Len(calls)].call = "build")
            => announced = {<<SourceDir(Src.name), Src.name>>}

-----------------------------------------------------------------------------
(* what the existing output holds matters where it is the output *)
Pointless == world.before # "short" /\ (IF target = <<>> THEN TRUE ELSE Tgt.k # "file" \/ Tgt.name # "old")

Told == /\ phase = "ended" /\ phase' = "told"
        /\ IF Mode = "gen"
           THEN IF Quiet \/ RandomElement(1..1000) > Percent \/ Pointless
              THEN TRUE
                ELSE PrintT("PRG " \o ToJson([world |-> world, calls |-> calls, held |-> IF source = <<>> THEN "" ELSE Held]))
           ELSE LET o == Row(row).obs
                    where == IF target = <<>> \/ Tgt.k = "stdout" THEN {} ELSE {<<TargetDir(Tgt.name), Tgt.name>>}
                    seen == {<<o.files[k].dir, o.files[k].name>> : k \in DOMAIN o.files}
                    ok == /\ (status = "ok") <=> (o.status = 0)
                          /\ status # "ok" => o.message
                          /\ IF status = "ok"
                             THEN IF Tgt.k = "stdout" THEN seen = {} /\ (world.stdout = "pipe" => o.stdout = delivered)
                                  ELSE /\ seen = where /\ \A k \in DOMAIN o.files : o.files[k].holds = delivered
                                       /\ world.stdout = "pipe" => o.stdout = "empty"
                             ELSE seen \subseteq (IF touched THEN where ELSE {})
                          /\ (world.stdout = "pipe") => announced \subseteq {<<o.announced[k].dir, o.announced[k].name>> : k \in DOMAIN o.announced}
                IN IF ok THEN TRUE
                   ELSE PrintT("MIS " \o ToJson([row |-> row, status |-> status, delivered |-> delivered, touched |-> touched,
                                                  announced |-> announced]))
        /\ UNCHANGED <<row, world, ctor, calls, source, target, parsed, touched, announced, status, delivered>>

NextB == New \/ FromEnv \/ (\E x \in Inputs : InputFile(x)) \/ (\E x \in Values : InputConfig(x))
           \/ (\E x \in Outputs : OutputFile(x)) \/ OutputStdout \/ Build \/ Read \/ Parse \/ Create \/ Generate \/ Told
=============================================================================
