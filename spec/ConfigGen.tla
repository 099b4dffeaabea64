------------------------------ MODULE ConfigGen ------------------------------
(***************************************************************************)
(* A route configuration under construction, as somebody writes it: open a *)
(* block, list its query parameters, then its resources (each with its own *)
(* query parameters), then its nested blocks.  Every finished behaviour    *)
(* ends in a valid configuration; `Finish' prints it.                      *)
(*                                                                         *)
(* Simulated by TLC (-simulate -seed) this yields the random configurations*)
(* replayed into the real generator.  Each action has one (random)         *)
(* instance per step, so the mix of actions is even; the invariant         *)
(* AllValid says the construction rules are enough for Valid.              *)
(***************************************************************************)
EXTENDS RouteConfig, Json, SequencesExt

CONSTANTS MaxNodes, Quiet

VARIABLES size,     \* number of blocks to open
          vocab,    \* static segment texts in use ...
          letters,  \* ... or the letters they are made of
          form,     \* "deep": depth rather than breadth; "any"; a number: no deeper than that
          style,    \* what there is more of: "plain", "arrows", "queries", "echo" (names recurring in related modules)
          nodes, cur, stage, headers, phase

style_ == <<size, vocab, letters, form, style>>
gvars == <<style_, nodes, cur, stage, headers, phase>>

Alphabets == { {"a", "b"}, {"_", "a", "-", "b"}, {"A", "a", "B", "b", "_"}, {"0", "1", "2"}, {"x", "y", "Z", "9", "."},
               {"a", "e", "i", "t", "s", "E", "_"}, {"p", "q", "-", "~", "1"}, {"a", "+", "%", "2", "@"}, {"'", "(", ")", "*", "b", "="} }

Vocabularies == {
    {"a", "ab", "abc", "abd", "b", "ba"},
    {"new", "newt", "news", "ne", "edit", "n"},
    {"foo", "foobar", "fomo", "fob", "bar", "f"},
    {"people", "books", "users", "new", "edit", "index"},
    {"x", "y", "z", "xx", "xy", "yy", "zzz"},
    {"1", "12", "123", "0", "a1", "a_b", "v1", "v10"},
    {"A", "a", "New", "new", "NEW", "GET"},
    {"a.b", "a-b", "a~", "~a", "-", ".", "..", "a"},
    {"averyveryverylongsegmentnamethatgoeson", "averyveryverylongsegmentname", "short",
     "averyveryverylongsegmentnamethatgoesonandon", "s"},
    {"aaaa", "aaab", "aab", "ab", "b", "aaaaa"},
    {"a+b", "a%20b", "(x)", "x;y=1", "@me", "a:b", "it's", "a", "$", "!,&"},
    {"true", "false", "7", "x", "00ff", "String"},
    {"abcdefgh", "abcdxxxx", "abcdefgx", "abcdefghi", "ab"} }

ParamNames == {"id", "lang", "q", "name", "slug", "page", "a_b", "x1", "year", "k9", "r", "state", "what",
               "userId", "pageNO", "_tmp", "x_Y_z", "UserName", "userid", "b__c", "z_"}
ModPool == {<<>>, <<"People">>, <<"People", "Admin">>, <<"books">>, <<"Alpha", "Beta", "Gamma">>,
            <<"user_data">>, <<"HTTPApi">>, <<"v2">>, <<"userInfo2">>, <<"userinfo2", "x_Y">>, <<"UserInfo">>, <<"UserInfo", "People">>, <<"Alpha">>, <<"Alpha", "Beta">>, <<"Alpha", "Delta">>, <<"People", "Public">>, <<"books", "lent">>, <<"books", "Sold">>,
            <<"Alpha", "Beta", "Gamma", "Delta", "Epsilon">>}
NamePool == {"Show", "Index", "edit_all", "Create", "UPDATE", "newItem", "do_It", "zed", "R2",
             "Destroy", "Search", "signUp", "signup", "siGnup", "RSS", "HTMLPage", "_hidden", "x_Y", "v2Beta", "long_name_of_an_action", "a", "Q", "b_", "c__d"}
HeaderPool == {<<>>, <<"use std::collections::{", "    HashSet,", "    VecDeque};">>,
               <<"// one", "/// documented", "pub const ANSWER: usize = 42;", "# [allow ( dead_code ) ]", "fn helper() -> u8 { 1 }">>, <<"// a comment">>, <<"use std::collections::HashMap;", "/* c */ use std::fmt::Debug as _;">>,
               <<"use std::collections::BTreeMap as Map;">>}

Cfg == [headers |-> headers, nodes |-> nodes]
Depth == Len(PathTo(Cfg, cur))
Scope == LET p == PathTo(Cfg, cur) IN
         UNION {{q.name : q \in SeqSet(nodes[p[k]].query)} : k \in DOMAIN p}
           \cup {nodes[p[k]].seg.name : k \in DOMAIN p}
Fresh == ParamNames \ Scope
Param(n) == [name |-> n, typ |-> RandomElement(ParamTypes)]
Empty(n) == nodes[n].res = <<>> /\ Kids(Cfg, n) = {}

Init == /\ size \in 1..MaxNodes
        /\ \/ vocab \in Vocabularies /\ letters = {}
           \/ vocab = {} /\ letters \in Alphabets
        /\ form \in {"deep", "any", "1", "2", "3"}
        /\ style \in {"plain", "arrows", "queries", "echo"}
        /\ nodes = <<[parent |-> 0, seg |-> [k |-> "root", text |-> "", name |-> "", typ |-> ""],
                      query |-> <<>>, res |-> <<>>]>>
        /\ cur = 1 /\ stage = "query" /\ headers = <<>> /\ phase = "open"

AddQuery == /\ phase = "open" /\ stage = "query" /\ Fresh # {} /\ Len(nodes[cur].query) < 3
            /\ style \in {"queries", "arrows"} \/ RandomElement(1..3) = 1
            /\ nodes' = [nodes EXCEPT ![cur].query = Append(@, Param(RandomElement(Fresh)))]
            /\ UNCHANGED <<style_, cur, stage, headers, phase>>

FreeAt(n) == Methods \ {r.method : r \in SeqSet(nodes[n].res)}
FreeMethods == FreeAt(cur)
NameTaken(m, n) == \E pl \in Serving(Cfg) : ResAt(Cfg, pl).mods = m /\ Caps(ResAt(Cfg, pl).name) = Caps(n)

(* modules related to ms: a module of the same name inside, the one outside, one called like the resource, ... *)
Echoes(ms, n) == {Append(ms, n), <<>>} \cup
    (IF ms = <<>> THEN {<<"Main">>, <<"Main", "Main">>}
     ELSE {Append(ms, ms[Len(ms)]), SubSeq(ms, 1, Len(ms) - 1), Tail(ms), Reverse(ms), ms \o ms})

Names == IF style # "echo" \/ Serving(Cfg) = {} \/ RandomElement(1..3) = 1
         THEN {<<RandomElement(ModPool), RandomElement(NamePool)>>}
         ELSE {<<RandomElement(Echoes(ResAt(Cfg, pl).mods, ResAt(Cfg, pl).name)), ResAt(Cfg, pl).name>> :
                  pl \in {RandomElement(Serving(Cfg))}}

AddResource ==
    /\ phase = "open" /\ stage \in {"query", "res"} /\ FreeMethods # {}
    /\ style = "arrows" => Serving(Cfg) = {} \/ RandomElement(1..3) = 1
    /\ \E mn \in Names :
       /\ ~NameTaken(mn[1], mn[2])
       /\ Len(mn[1]) <= 6
       /\ nodes' = [nodes EXCEPT ![cur].res =
             Append(@, [method |-> RandomElement(FreeMethods), mods |-> mn[1], name |-> mn[2],
                        redirect |-> FALSE, query |-> <<>>])]
       /\ \A m \in ModulePaths([Cfg EXCEPT !.nodes = nodes']) : ~NamesClash([Cfg EXCEPT !.nodes = nodes'], m)
    /\ stage' = "res"
    /\ UNCHANGED <<style_, cur, headers, phase>>

AddResourceQuery ==
    /\ phase = "open" /\ stage = "res"
    /\ LET r == Len(nodes[cur].res)
           f == Fresh \ {q.name : q \in SeqSet(nodes[cur].res[r].query)} IN
       /\ ~nodes[cur].res[r].redirect
       /\ f # {} /\ Len(nodes[cur].res[r].query) < 3
       /\ nodes' = [nodes EXCEPT ![cur].res[r].query = Append(@, Param(RandomElement(f)))]
    /\ UNCHANGED <<style_, cur, stage, headers, phase>>

(* a redirect to anything already served with the same path parameters and at
   least the query parameters of the block; it declares the others itself *)
BlockFields(n) == {<<"path", p.name, p.typ>> : p \in SeqSet(PathParams(Cfg, n))} \cup
                  {<<"query", p.name, p.typ>> : p \in SeqSet(BlockQuery(Cfg, n))}
PathPart(s) == {f \in s : f[1] = "path"}
Goals(n) == {pl \in Serving(Cfg) :
                LET f == FieldSet(Cfg, pl) IN BlockFields(n) \subseteq f /\ PathPart(f) = PathPart(BlockFields(n))}
ArrowTo(n, pl) ==
    LET t == ResAt(Cfg, pl)
        own == SetToSeq(FieldSet(Cfg, pl) \ BlockFields(n))
    IN [method |-> RandomElement(FreeAt(n)), mods |-> t.mods, name |-> t.name, redirect |-> TRUE,
        query |-> [k \in DOMAIN own |-> [name |-> own[k][2], typ |-> own[k][3]]]]

AddRedirect ==
    /\ phase = "open" /\ stage \in {"query", "res"} /\ FreeMethods # {}
    /\ Goals(cur) # {}
    /\ \E pl \in {RandomElement(Goals(cur))} :
          nodes' = [nodes EXCEPT ![cur].res = Append(@, ArrowTo(cur, pl))]
    /\ stage' = "res"
    /\ UNCHANGED <<style_, cur, headers, phase>>

(* the same from a block written before its goal, rather one without resources *)
Backfill ==
    /\ phase = "open" /\ cur = 1 /\ Len(nodes) >= size
    /\ style = "arrows" \/ RandomElement(1..6) = 1
    /\ LET can == {n \in NodesOf(Cfg) : FreeAt(n) # {} /\ Goals(n) # {}}
           hollow == {n \in can : nodes[n].res = <<>>}
           best == {n \in hollow : nodes[n].query # <<>>}
       IN /\ can # {}
          /\ \E n \in {RandomElement(IF best # {} THEN best ELSE IF hollow # {} THEN hollow ELSE can)} :
             \E pl \in {RandomElement(Goals(n))} :
                nodes' = [nodes EXCEPT ![n].res = IF RandomElement(BOOLEAN) THEN Append(@, ArrowTo(n, pl))
                                                  ELSE <<ArrowTo(n, pl)>> \o @]
    /\ stage' = "kids"
    /\ UNCHANGED <<style_, cur, headers, phase>>

Open(seg) == /\ nodes' = Append(nodes, [parent |-> cur, seg |-> seg, query |-> <<>>, res |-> <<>>])
             /\ cur' = Len(nodes) + 1 /\ stage' = "query"
             /\ UNCHANGED <<style_, headers, phase>>

(* a random word, rather one that shares something with the siblings *)
Word == RandomElement(letters) \o RandomElement(letters \cup {""}) \o RandomElement(letters \cup {""})
          \o (IF RandomElement(1..4) = 1 THEN RandomElement(letters) \o RandomElement(letters) ELSE "")
NewText(old) ==
    IF letters = {} THEN RandomElement(vocab)
    ELSE LET w == Word  x == RandomElement(1..3) IN
         IF old = {} \/ x = 1 THEN w
         ELSE RandomElement(old) \o RandomElement(letters) \o (IF x = 2 THEN "" ELSE RandomElement(letters))

Wide == form \in {"1", "2", "3"}
MayOpen == /\ phase = "open" /\ Len(nodes) < size
           /\ Wide => Depth <= (CASE form = "1" -> 1 [] form = "2" -> 2 [] form = "3" -> 3)

OpenStatic == /\ MayOpen
              /\ LET old == {nodes[m].seg.text : m \in {m \in Kids(Cfg, cur) : IsStatic(Cfg, m)}} IN
                 \E t \in {NewText(old)} :
                    /\ t \notin old /\ Len(t) < 12
                    /\ Open([k |-> "static", text |-> t, name |-> "", typ |-> ""])

(* names repeat across branches, so that redirects find matching parameters *)
OpenDyn == /\ MayOpen /\ (Wide => RandomElement(1..4) = 1)
           /\ ~\E m \in Kids(Cfg, cur) : IsDyn(Cfg, m)
           /\ LET f == {"id", "slug", "r", "a_b", "x1", "k9", "state", "userId", "_tmp", "pageNO", "UserName", "z_"} \ Scope IN
              /\ f # {}
              /\ \E n \in {IF "id" \in f THEN "id" ELSE RandomElement(f)} :
                    Open([k |-> "dyn", text |-> "", name |-> n,
                          typ |-> IF n = "id" /\ RandomElement(1..3) > 1 THEN "u8" ELSE RandomElement(ParamTypes)])

Close == /\ phase = "open" /\ cur # 1 /\ ~Empty(cur)
         /\ form = "deep" => (Len(nodes) >= size \/ RandomElement(1..3) = 1)
         /\ cur' = nodes[cur].parent /\ stage' = "kids"
         /\ UNCHANGED <<style_, nodes, headers, phase>>

Finish == /\ phase = "open" /\ cur = 1 /\ Len(nodes) >= size /\ ~Empty(1) /\ Serving(Cfg) # {}
          /\ \E base \in {RandomElement(HeaderPool)} :
                headers' = base \o SetToSeq(NeededHeaders(Cfg))
          /\ phase' = "done"
          /\ UNCHANGED <<style_, nodes, cur, stage>>

(* another try: the actions above pick at random and may pick something taken *)
Retry == phase = "open" /\ UNCHANGED gvars

Report == /\ phase = "done"
          /\ IF Quiet THEN TRUE ELSE PrintT("CFG " \o ToJson(Cfg))
          /\ phase' = "told"
          /\ UNCHANGED <<style_, nodes, cur, stage, headers>>

GNext == AddQuery \/ AddResource \/ AddResourceQuery \/ AddRedirect \/ Backfill \/ OpenStatic \/ OpenDyn
           \/ Close \/ Finish \/ Report \/ Retry

AllValid == phase = "done" => Valid(Cfg)
=============================================================================
