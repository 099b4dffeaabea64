------------------------------ MODULE Spellings ------------------------------
(***************************************************************************)
(* One declaration, three spellings: macro invocation, plain struct, and   *)
(* lines of a route file (C16).  The meaning is the abstract record; this  *)
(* module says how each notation spells it.                                *)
(*                                                                         *)
(* Mode "res":   every resource declaration within bounds.                 *)
(* Mode "cfg":   the configurations in File, written as Rust expressions.  *)
(* Mode "trace": values read back from real macros, structs and files must *)
(*               be the meaning; and code generation must be a function:   *)
(*               the memo of what each configuration generated.            *)
(***************************************************************************)
EXTENDS RouteConfig, Json

CONSTANTS File, Mode, MaxNames, MaxQuery

Data == JsonDeserialize(File)
ASSUME TLCSet(7, Data)
D == TLCGet(7)

RECURSIVE Sep(_, _)
Sep(seq, sep) == IF seq = <<>> THEN "" ELSE IF Len(seq) = 1 THEN seq[1] ELSE seq[1] \o sep \o Sep(Tail(seq), sep)
Map(F(_), seq) == [k \in DOMAIN seq |-> F(seq[k])]
Quote(s) == "\"" \o s \o "\""

(* Macros *)
MacroName(m) == CASE m = "GET" -> "get" [] m = "POST" -> "post" [] m = "PUT" -> "put" [] m = "DELETE" -> "delete"
ParamMacro(p) == "param!(" \o p.name \o ": " \o p.typ \o ")"
Spelled(r) == Sep(Append(r.mods, r.name), "::")
MacroOf(r) == MacroName(r.method) \o "!(" \o (IF r.redirect THEN "-> " ELSE "") \o Spelled(r)
                \o Sep(Map(LAMBDA p : ", " \o ParamMacro(p), r.query), "") \o ")"
(* the macros have no form for a redirect with query parameters *)
HasMacro(r) == ~r.redirect \/ r.query = <<>>

(* Structs *)
VecOf(seq) == "vec![" \o Sep(seq, ", ") \o "]"
Owned(s) == Quote(s) \o ".to_string()"
ParamStruct(p) == "Param { name: " \o Owned(p.name) \o ", typ: " \o Owned(p.typ) \o " }"
MethodStruct(m) == CASE m = "GET" -> "Method::Get" [] m = "POST" -> "Method::Post"
                     [] m = "PUT" -> "Method::Put" [] m = "DELETE" -> "Method::Delete"
StructOf(r) == "Resource { method: " \o MethodStruct(r.method) \o ", modules: " \o VecOf(Map(Owned, r.mods))
                 \o ", name: " \o Owned(r.name) \o ", is_redirect: " \o (IF r.redirect THEN "true" ELSE "false")
                 \o ", query_parameters: " \o VecOf(Map(ParamStruct, r.query)) \o " }"

(* Route file *)
LinesOf(r) == <<"  " \o r.method \o " " \o (IF r.redirect THEN "-> " ELSE "") \o Spelled(r)>>
                \o Map(LAMBDA p : "    [" \o p.name \o ": " \o p.typ \o "]", r.query)

(* Whole configurations, with the macros wherever they have a form, or without *)
RECURSIVE RoutesText(_, _, _)
RoutesText(c, n, mac) ==
    LET P(p) == IF mac THEN ParamMacro(p) ELSE "Param::new(" \o Quote(p.name) \o ", " \o Quote(p.typ) \o ")"
        R(r) == IF mac /\ HasMacro(r) THEN MacroOf(r) ELSE StructOf(r)
        ks == KidSeq(c, n)
        K(k) == LET s == c.nodes[k].seg IN
                IF mac THEN "NestedRoutes::new(" \o (IF s.k = "static" THEN Quote(s.text) ELSE P(s)) \o ", " \o RoutesText(c, k, mac) \o ")"
                ELSE "NestedRoutes { path_segment: PathSegment::" \o (IF s.k = "static" THEN "Static(" \o Owned(s.text) \o ")"
                        ELSE "Dynamic(" \o P(s) \o ")") \o ", routes: " \o RoutesText(c, k, mac) \o " }"
    IN "Routes { query_parameters: " \o VecOf(Map(P, c.nodes[n].query)) \o ", resources: " \o VecOf(Map(R, c.nodes[n].res))
         \o ", routes: " \o VecOf(Map(K, ks)) \o (IF mac THEN ", ..Routes::default()" ELSE "") \o " }"
ConfigText(c, mac, heads) ==
    "RouteConfig { headers: " \o VecOf([k \in DOMAIN c.headers |->
        IF mac /\ heads THEN "header!(" \o c.headers[k] \o ")" ELSE "Header::new(" \o Quote(c.headers[k]) \o ")"])
      \o ", routes: " \o RoutesText(c, 1, mac) \o " }"

-----------------------------------------------------------------------------
VARIABLES what,   \* the declaration (mode "res"), an index otherwise
          done,
          memo    \* what each configuration generated so far
vars == <<what, done, memo>>

Names == {"Show", "people", "x_1", "GET", "move", "_z"}
Few == {"Show", "people", "x_1"}
SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
Typed == {[name |-> "q", typ |-> "String"], [name |-> "page", typ |-> "u8"], [name |-> "a_b", typ |-> "Uuid"]}
Decls ==
    {[method |-> m, mods |-> SubSeq(ns, 1, Len(ns) - 1), name |-> ns[Len(ns)], redirect |-> red, query |-> q] :
        m \in Methods, red \in BOOLEAN, q \in SeqsUpTo(Typed, MaxQuery),
        ns \in {s \in SeqsUpTo(Few, MaxNames) \cup SeqsUpTo(Names, 2) : s # <<>>}}
    \cup {[method |-> m, mods |-> [j \in 1..k |-> "M" \o ToString(j)], name |-> "Deep", redirect |-> red, query |-> <<>>] :
            m \in Methods, red \in BOOLEAN, k \in 4..9}
    \cup {[method |-> m, mods |-> <<"a">>, name |-> "Many", redirect |-> FALSE,
           query |-> [j \in 1..k |-> [name |-> "q" \o ToString(j), typ |-> IF j % 2 = 0 THEN "u8" ELSE "String"]]] :
            m \in Methods, k \in 3..8}

InitW == /\ CASE Mode = "res" -> what \in {d \in Decls : HasMacro(d)}
              [] Mode = "cfg" -> what \in DOMAIN D.configs
              [] OTHER -> what = 1
         /\ done = FALSE /\ memo = <<>>

Tell == /\ ~done /\ Mode \in {"res", "cfg"}
        /\ done' = TRUE /\ UNCHANGED <<what, memo>>
        /\ IF Mode = "res"
           THEN PrintT("DEC " \o ToJson([res |-> what, mac |-> MacroOf(what), str |-> StructOf(what), lines |-> LinesOf(what)]))
           ELSE PrintT("WHO " \o ToJson([k |-> what, mac |-> ConfigText(D.configs[what].cfg, TRUE, D.configs[what].heads),
                                         str |-> ConfigText(D.configs[what].cfg, FALSE, FALSE)]))

(* a trace is a sequence of events of two kinds, taken in order *)
E == D.events[what]
Value == /\ Mode = "trace" /\ what <= Len(D.events) /\ E.a = "value"
         /\ what' = what + 1 /\ UNCHANGED <<done, memo>>
         /\ IF E.macro = E.want /\ E.struct = E.want /\ E.text = E.want /\ E.equal THEN TRUE
            ELSE PrintT("MIS " \o ToJson([k |-> what]))
Known(c) == {k \in DOMAIN memo : memo[k].c = c}
Generate == /\ Mode = "trace" /\ what <= Len(D.events) /\ E.a = "generate"
            /\ what' = what + 1 /\ UNCHANGED done
            /\ IF Known(E.c) = {} THEN memo' = Append(memo, [c |-> E.c, out |-> E.out])
               ELSE /\ UNCHANGED memo
                    /\ IF \A k \in Known(E.c) : memo[k].out = E.out THEN TRUE ELSE PrintT("MIS " \o ToJson([k |-> what]))
NextW == Tell \/ Value \/ Generate
=============================================================================
