--------------------------------- MODULE Api ---------------------------------
(***************************************************************************)
(* The public face a configuration promises, and the judgement of the face *)
(* read back from really generated modules (parsed from their code).       *)
(*                                                                         *)
(* The module tree is walked as a state machine: one state per generated   *)
(* module, from the root module outwards, so that every module of every    *)
(* configuration is judged on its own.                                     *)
(***************************************************************************)
EXTENDS RouteConfig, Json

CONSTANTS File, Prop

Data == JsonDeserialize(File)
ASSUME TLCSet(7, Data.items)
ItemAt(n) == TLCGet(7)[n]

VARIABLES item,     \* which configuration
          at,       \* declared module path being looked at
          done
vars == <<item, at, done>>

C == ItemAt(item).cfg
Real == ItemAt(item).modules

RustPath(m) == [k \in DOMAIN m |-> Snake(m[k])]
Found(m) == {k \in DOMAIN Real : Real[k].path = RustPath(m)}

(* Fields *)
PathFields(pl) == {[name |-> p.name, typ |-> p.typ] : p \in SeqSet(PathParams(C, pl[1]))}
QueryFields(pl) == {[name |-> p.name, typ |-> "Option<" \o p.typ \o ">"] : p \in SeqSet(QueryParams(C, pl[1], pl[2]))}
IsOption(t) == Len(t) > 7 /\ SubSeq(t, 1, 7) = "Option<"
RealFields(s) == {[name |-> s.fields[k].name, typ |-> s.fields[k].typ] : k \in DOMAIN s.fields}

StructsNamed(mod, name) == {k \in DOMAIN mod.structs : mod.structs[k].name = name}
PubStructs(mod) == {mod.structs[k].name : k \in {j \in DOMAIN mod.structs : mod.structs[j].pub}}

(* Route enum: one variant per resource and per nested module *)
Variants(m) ==
    {[name |-> Caps(ResAt(C, pl).name), args |-> <<Caps(ResAt(C, pl).name)>>] : pl \in ServedIn(C, m)} \cup
    {[name |-> Caps(q[Len(q)]), args |-> <<Snake(q[Len(q)]) \o "::Route">>] : q \in SubModules(C, m)}
RouteEnum(mod) == {k \in DOMAIN mod.enums : mod.enums[k].name = "Route"}

(* The path a resource is served at, as documented *)
SegText(s) == IF s.k = "static" THEN s.text ELSE "{" \o s.name \o "}"
RECURSIVE PathText(_)
PathText(ss) == IF ss = <<>> THEN "" ELSE "/" \o SegText(ss[1]) \o PathText(Tail(ss))
ServedAs(pl) == <<ResAt(C, pl).method, IF pl[1] = 1 THEN "/" ELSE PathText(Segs(C, pl[1]))>>

-----------------------------------------------------------------------------
(* C09, C10 and C20 per resource *)
ResourceProblems(mod, pl) ==
    LET found == StructsNamed(mod, Caps(ResAt(C, pl).name)) IN
    IF Cardinality(found) # 1 THEN {"not exactly one struct"}
    ELSE LET s == mod.structs[CHOOSE k \in found : TRUE] IN
         CASE Prop = "C09" ->
                (IF {f \in RealFields(s) : IsOption(f.typ)} # QueryFields(pl) THEN {"query fields"} ELSE {})
           [] Prop = "C10" ->
                (IF ~s.pub THEN {"struct not public"} ELSE {}) \cup
                (IF RealFields(s) # PathFields(pl) \cup QueryFields(pl) \/ Cardinality(RealFields(s)) # Len(s.fields)
                 THEN {"fields"} ELSE {}) \cup
                (IF \E k \in DOMAIN s.fields : ~s.fields[k].pub THEN {"private field"} ELSE {})
           [] Prop = "C20" ->
                (IF SeqSet(s.served) # {ServedAs(pl)} THEN {"documented place"} ELSE {})
           [] OTHER -> {}

(* hs from k on occurs in ls from j on, other lines between them or not *)
RECURSIVE InOrder(_, _, _, _)
InOrder(hs, ls, k, j) ==
    IF k > Len(hs) THEN TRUE
    ELSE IF j > Len(ls) THEN FALSE
    ELSE InOrder(hs, ls, IF hs[k] = ls[j] THEN k + 1 ELSE k, j + 1)

ModuleProblems(mod, m) ==
    CASE Prop = "C10" ->
            (IF ~mod.pub THEN {"module not public"} ELSE {}) \cup
            (IF PubStructs(mod) \ {Caps(ResAt(C, pl).name) : pl \in ServedIn(C, m)}
                  \subseteq (IF m = <<>> THEN {"Error"} ELSE {}) THEN {} ELSE {"unexpected struct"}) \cup
            (IF SeqSet(mod.modules) = {Snake(q[Len(q)]) : q \in SubModules(C, m)}
                 /\ Len(mod.modules) = Cardinality(SubModules(C, m)) THEN {} ELSE {"nested modules"}) \cup
            (IF Cardinality(RouteEnum(mod)) # 1 THEN {"not exactly one Route enum"}
             ELSE LET e == mod.enums[CHOOSE k \in RouteEnum(mod) : TRUE] IN
                  IF e.pub /\ SeqSet(e.variants) = Variants(m) /\ Len(e.variants) = Cardinality(Variants(m))
                  THEN {} ELSE {"variants"})
      [] Prop = "C19" ->
            {"header line missing: " \o h : h \in {x \in SeqSet(ItemAt(item).headers) : x \notin SeqSet(mod.lines)}} \cup
            (IF InOrder(ItemAt(item).headers, mod.lines, 1, 1) THEN {} ELSE {"header lines out of order, or fewer times"})
      [] OTHER -> {}

Problems ==
    IF Cardinality(Found(at)) # 1 THEN {"not exactly one module"}
    ELSE LET mod == Real[CHOOSE k \in Found(at) : TRUE] IN
         ModuleProblems(mod, at) \cup UNION {ResourceProblems(mod, pl) : pl \in ServedIn(C, at)}

(* Modules nobody declared *)
Surplus == {k \in DOMAIN Real : ~\E m \in ModulePaths(C) : RustPath(m) = Real[k].path}

Tell(p) == IF p = {} THEN TRUE
           ELSE PrintT("MIS " \o ToJson([item |-> item, module |-> at, problems |-> p]))

Init == item \in DOMAIN Data.items /\ at = <<>> /\ done = FALSE

Look == ~done /\ done' = TRUE /\ Tell(Problems) /\ UNCHANGED <<item, at>>
Start == /\ ~done /\ at = <<>> /\ Prop = "C10"
         /\ Tell(IF Surplus = {} THEN {} ELSE {"module nobody declared"})
         /\ done' = TRUE /\ UNCHANGED <<item, at>>
Enter == /\ done
         /\ \E m \in SubModules(C, at) : at' = m
         /\ done' = FALSE /\ UNCHANGED item

Next == Look \/ Start \/ Enter
=============================================================================
