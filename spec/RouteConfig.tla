----------------------------- MODULE RouteConfig -----------------------------
(***************************************************************************)
(* The abstract state of the generator's input: a route configuration.     *)
(*                                                                         *)
(*   cfg == [headers |-> <<string>>, nodes |-> <<node>>]                   *)
(*   node == [parent |-> 0..n, seg |-> segment,                            *)
(*            query |-> <<param>>, res |-> <<resource>>]                   *)
(*   segment == [k |-> "root" | "static" | "dyn",                          *)
(*               text |-> string,      static: the segment                 *)
(*               name, typ |-> string] dyn: the parameter                  *)
(*   resource == [method, mods |-> <<string>>, name, redirect |-> BOOLEAN, *)
(*                query |-> <<param>>]                                     *)
(*   param == [name, typ]                                                  *)
(*                                                                         *)
(* Node 1 is the root; nodes are numbered in pre-order, children in        *)
(* declaration order, so equal trees have equal representations.           *)
(***************************************************************************)
EXTENDS Text

Methods == {"GET", "POST", "PUT", "DELETE"}

NodesOf(cfg) == 1..Len(cfg.nodes)

Kids(cfg, n) == {m \in NodesOf(cfg) : cfg.nodes[m].parent = n}

(* Ascending sequence of a set of integers *)
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>>
             ELSE LET x == Min(S) IN <<x>> \o Sorted(S \ {x})

KidSeq(cfg, n) == Sorted(Kids(cfg, n))

RECURSIVE PathTo(_, _)
PathTo(cfg, n) == IF n = 0 THEN <<>> ELSE Append(PathTo(cfg, cfg.nodes[n].parent), n)

Below(cfg, n) == {m \in NodesOf(cfg) : n \in {PathTo(cfg, m)[k] : k \in DOMAIN PathTo(cfg, m)}}

IsStatic(cfg, n) == cfg.nodes[n].seg.k = "static"
IsDyn(cfg, n) == cfg.nodes[n].seg.k = "dyn"

(* The segments leading to n, root excluded *)
Segs(cfg, n) == LET p == PathTo(cfg, n) IN [k \in 1..(Len(p) - 1) |-> cfg.nodes[p[k + 1]].seg]

(* Path parameters of everything served at n, in path order *)
PathParams(cfg, n) ==
    LET d == SelectSeq(Segs(cfg, n), LAMBDA s : s.k = "dyn")
    IN [k \in 1..Len(d) |-> [name |-> d[k].name, typ |-> d[k].typ]]

(* Query parameters in scope on block n: declared there or further out (C09) *)
BlockQuery(cfg, n) ==
    LET p == PathTo(cfg, n) IN Concat([k \in 1..Len(p) |-> cfg.nodes[p[k]].query])

QueryParams(cfg, n, r) == BlockQuery(cfg, n) \o cfg.nodes[n].res[r].query

(* All places a resource is declared, as <<node, index>> *)
Places(cfg) == UNION {{<<n, r>> : r \in DOMAIN cfg.nodes[n].res} : n \in NodesOf(cfg)}
ResAt(cfg, pl) == cfg.nodes[pl[1]].res[pl[2]]
Serving(cfg) == {pl \in Places(cfg) : ~ResAt(cfg, pl).redirect}
Redirects(cfg) == {pl \in Places(cfg) : ResAt(cfg, pl).redirect}

SameName(a, b) == a.mods = b.mods /\ a.name = b.name
TargetsOf(cfg, pl) == {q \in Serving(cfg) : SameName(ResAt(cfg, q), ResAt(cfg, pl))}

(***************************************************************************)
(* Name conversion of the generated API                                    *)
(***************************************************************************)
RECURSIVE CapsTail(_)
CapsTail(b) ==
    IF b = <<>> THEN <<>>
    ELSE IF b[1] = Underscore
         THEN IF Len(b) = 1 THEN <<>>
              ELSE <<ToUpper(b[2])>> \o CapsTail(SubSeq(b, 3, Len(b)))
         ELSE <<b[1]>> \o CapsTail(Tail(b))
CapsBytes(b) == IF b = <<>> THEN <<>> ELSE CapsTail(<<ToUpper(b[1])>> \o Tail(b))

RECURSIVE SnakeTail(_)
SnakeTail(b) ==
    IF b = <<>> THEN <<>>
    ELSE (IF IsUpper(b[1]) THEN <<Underscore, ToLower(b[1])>> ELSE <<b[1]>>) \o SnakeTail(Tail(b))
SnakeBytes(b) == IF b = <<>> THEN <<>> ELSE SnakeTail(<<ToLower(b[1])>> \o Tail(b))

Caps(s) == Str(CapsBytes(Ord(s)))
Snake(s) == Str(SnakeBytes(Ord(s)))

(***************************************************************************)
(* The ambiguities that must be refused (C15)                              *)
(***************************************************************************)
DuplicateStatic(cfg) ==
    \E n \in NodesOf(cfg) : \E a, b \in Kids(cfg, n) :
        a # b /\ IsStatic(cfg, a) /\ IsStatic(cfg, b) /\ cfg.nodes[a].seg.text = cfg.nodes[b].seg.text
SiblingParameters(cfg) ==
    \E n \in NodesOf(cfg) : \E a, b \in Kids(cfg, n) : a # b /\ IsDyn(cfg, a) /\ IsDyn(cfg, b)
DuplicateMethod(cfg) ==
    \E n \in NodesOf(cfg) : \E a, b \in DOMAIN cfg.nodes[n].res :
        a # b /\ cfg.nodes[n].res[a].method = cfg.nodes[n].res[b].method
DuplicateAction(cfg) ==
    \E a, b \in Serving(cfg) : a # b /\ SameName(ResAt(cfg, a), ResAt(cfg, b))

Ambiguities(cfg) ==
    (IF DuplicateStatic(cfg) THEN {"static"} ELSE {}) \cup
    (IF SiblingParameters(cfg) THEN {"params"} ELSE {}) \cup
    (IF DuplicateMethod(cfg) THEN {"method"} ELSE {}) \cup
    (IF DuplicateAction(cfg) THEN {"action"} ELSE {})

(***************************************************************************)
(* Valid configurations: the domain of the properties.                     *)
(***************************************************************************)
Distinct(seq) == \A a, b \in DOMAIN seq : seq[a] = seq[b] => a = b

(* what may stand in a URL path: unreserved, percent encoded, sub-delims, : and @ *)
SafeByte(b) == IsIdentByte(b) \/ b \in {45, 46, 126, 33, 36, 37, 38, 39, 40, 41, 42, 43, 44, 58, 59, 61, 64}
SafeText(s) == Len(s) > 0 /\ \A k \in 1..Len(s) : SafeByte(Ord(s)[k])

Keywords == {"as", "break", "const", "continue", "crate", "dyn", "else", "enum", "extern",
    "false", "fn", "for", "if", "impl", "in", "let", "loop", "match", "mod", "move", "mut", "pub",
    "ref", "return", "self", "Self", "static", "struct", "super", "trait", "true", "type",
    "unsafe", "use", "where", "while", "async", "await", "abstract", "become", "box", "do",
    "final", "macro", "override", "priv", "try", "typeof", "unsized", "virtual", "yield"}

(* Locals of the generated matcher: parameters of these names clash with them *)
ReservedParams == {"path", "method", "len", "i", "start", "text"}

(* Names the generated modules use or define themselves; a resource or module
   called like one of them clashes with it (known finding K6) *)
TakenNames == {"Route", "Match", "Error", "Option", "Some", "None", "Result", "Ok", "Err",
               "String", "Box", "Uuid", "Self", "P", "M", "AsRef"}
TakenModules == {"fmt", "uuid", "std"}

ParamName(s) == /\ IsIdentifier(s) /\ ~IsDigit(Ord(s)[1]) /\ s \notin Keywords
                /\ s # "_"
                /\ IsUpper(Ord(s)[1]) => s \notin TakenNames \cup ParamTypes

FieldNames(cfg, pl) ==
    LET pp == PathParams(cfg, pl[1])  qp == QueryParams(cfg, pl[1], pl[2])
    IN [k \in 1..Len(pp) |-> pp[k].name] \o [k \in 1..Len(qp) |-> qp[k].name]

SeqSet(s) == {s[k] : k \in DOMAIN s}

FieldSet(cfg, pl) ==
    {<<"path", p.name, p.typ>> : p \in SeqSet(PathParams(cfg, pl[1]))} \cup
    {<<"query", p.name, p.typ>> : p \in SeqSet(QueryParams(cfg, pl[1], pl[2]))}

(* Prefixes of the module paths in use: the generated modules, root included *)
ModulePaths(cfg) ==
    UNION {{SubSeq(ResAt(cfg, pl).mods, 1, k) : k \in 0..Len(ResAt(cfg, pl).mods)} : pl \in Serving(cfg)}
      \cup {<<>>}
ServedIn(cfg, m) == {pl \in Serving(cfg) : ResAt(cfg, pl).mods = m}
SubModules(cfg, m) == {q \in ModulePaths(cfg) : Len(q) = Len(m) + 1 /\ SubSeq(q, 1, Len(m)) = m}

NamesClash(cfg, m) ==
    LET variants == [pl \in ServedIn(cfg, m) |-> Caps(ResAt(cfg, pl).name)]
        subs == [q \in SubModules(cfg, m) |-> Caps(q[Len(q)])]
        snakes == [q \in SubModules(cfg, m) |-> Snake(q[Len(q)])]
    IN \/ \E a, b \in DOMAIN variants : a # b /\ variants[a] = variants[b]
       \/ \E a, b \in DOMAIN subs : a # b /\ (subs[a] = subs[b] \/ snakes[a] = snakes[b])
       \/ \E a \in DOMAIN variants, b \in DOMAIN subs : variants[a] = subs[b]
       \/ \E a \in DOMAIN variants : variants[a] \in TakenNames
       \/ \E b \in DOMAIN subs : subs[b] \in TakenNames \/ snakes[b] \in Keywords \cup TakenModules

TypesUsed(cfg) ==
    UNION {(IF IsDyn(cfg, n) THEN {cfg.nodes[n].seg.typ} ELSE {}) \cup
           {p.typ : p \in SeqSet(cfg.nodes[n].query)} \cup
           UNION {{p.typ : p \in SeqSet(r.query)} : r \in SeqSet(cfg.nodes[n].res)} : n \in NodesOf(cfg)}
NeededHeaders(cfg) == {ImportOf[t] : t \in TypesUsed(cfg) \cap Imported}

ShapeOK(cfg) ==
    /\ Len(cfg.nodes) >= 1
    /\ cfg.nodes[1].parent = 0 /\ cfg.nodes[1].seg.k = "root"
    /\ \A n \in 2..Len(cfg.nodes) :
        /\ cfg.nodes[n].parent \in 1..(n - 1)
        /\ cfg.nodes[n].seg.k \in {"static", "dyn"}
        \* pre-order: the parent is the previous node or one of its ancestors
        /\ \E k \in DOMAIN PathTo(cfg, n - 1) : PathTo(cfg, n - 1)[k] = cfg.nodes[n].parent
    \* no empty block
    /\ \A n \in NodesOf(cfg) : cfg.nodes[n].res # <<>> \/ Kids(cfg, n) # {}

(* in a let, the name of a unit struct is a pattern *)
TypeNames(cfg) == {Caps(ResAt(cfg, pl).name) : pl \in Serving(cfg)}

NamesOK(cfg) ==
    /\ \A n \in NodesOf(cfg) : IsDyn(cfg, n) => cfg.nodes[n].seg.name \notin TypeNames(cfg)
    /\ \A n \in NodesOf(cfg) :
        /\ IsStatic(cfg, n) => SafeText(cfg.nodes[n].seg.text)
        /\ IsDyn(cfg, n) => /\ ParamName(cfg.nodes[n].seg.name)
                            /\ cfg.nodes[n].seg.name \notin ReservedParams
                            /\ cfg.nodes[n].seg.typ \in ParamTypes
        /\ \A p \in SeqSet(cfg.nodes[n].query) : ParamName(p.name) /\ p.typ \in ParamTypes
        /\ \A r \in SeqSet(cfg.nodes[n].res) :
            /\ r.method \in Methods
            /\ IsIdentifier(r.name) /\ ~IsDigit(Ord(r.name)[1]) /\ r.name \notin Keywords
            /\ \A k \in DOMAIN r.mods : IsIdentifier(r.mods[k]) /\ ~IsDigit(Ord(r.mods[k])[1])
            /\ \A p \in SeqSet(r.query) : ParamName(p.name) /\ p.typ \in ParamTypes
    /\ \A m \in ModulePaths(cfg) : ~NamesClash(cfg, m)

FieldsOK(cfg) ==
    /\ \A pl \in Places(cfg) : Distinct(FieldNames(cfg, pl))
    /\ \A pl \in Redirects(cfg) :
        \E q \in TargetsOf(cfg, pl) : FieldSet(cfg, q) = FieldSet(cfg, pl)
    /\ NeededHeaders(cfg) \subseteq SeqSet(cfg.headers)
    \* an import is there once (other lines may recur)
    /\ \A h \in NeededHeaders(cfg) : Cardinality({k \in DOMAIN cfg.headers : cfg.headers[k] = h}) = 1

Valid(cfg) ==
    /\ ShapeOK(cfg)
    /\ Serving(cfg) # {}
    /\ Ambiguities(cfg) = {}
    /\ NamesOK(cfg)
    /\ FieldsOK(cfg)

(***************************************************************************)
(* Derived lookups used by the router, computed once per configuration     *)
(***************************************************************************)
StaticKids(cfg, n) == {m \in Kids(cfg, n) : IsStatic(cfg, m)}
DynKid(cfg, n) == LET d == {m \in Kids(cfg, n) : IsDyn(cfg, m)}
                  IN IF d = {} THEN 0 ELSE CHOOSE m \in d : TRUE

MethodBytes(m) == CASE m = "GET" -> <<71, 69, 84>>
                    [] m = "POST" -> <<80, 79, 83, 84>>
                    [] m = "PUT" -> <<80, 85, 84>>
                    [] m = "DELETE" -> <<68, 69, 76, 69, 84, 69>>

TextsOf(cfg) == [n \in NodesOf(cfg) |-> IF IsStatic(cfg, n) THEN Ord(cfg.nodes[n].seg.text) ELSE <<>>]

(* txt = TextsOf(cfg), which traces bring along *)
View(cfg, txt) == TLCEval(
    LET Stat == [n \in NodesOf(cfg) |-> StaticKids(cfg, n)]
    IN [text |-> txt,
        stat |-> Stat,
        meth |-> [n \in NodesOf(cfg) |-> [r \in DOMAIN cfg.nodes[n].res |-> MethodBytes(cfg.nodes[n].res[r].method)]],
        dyn |-> [n \in NodesOf(cfg) |-> DynKid(cfg, n)],
        lcp |-> [n \in NodesOf(cfg) |->
                    IF Stat[n] = {} THEN <<>> ELSE CommonPrefix({txt[m] : m \in Stat[n]})]])
=============================================================================
