------------------------------- MODULE RouterMC -------------------------------
(***************************************************************************)
(* Model checking of Router itself, before any code is involved.           *)
(*                                                                         *)
(* The client composes a request: at every level it picks one of the words *)
(* that matter there (names of static blocks, the same one character       *)
(* longer or shorter, values good and bad, the empty text), for up to      *)
(* Extra levels more than the configuration has.  Then Router answers,     *)
(* then TrieMatcher.  The invariants state each property without walking.  *)
(***************************************************************************)
EXTENDS TrieMatcher, Json

CONSTANTS File, Extra, Deeper, WithTrie, Noise

Data == JsonDeserialize(File)
MCConfigs == Data.configs
ASSUME TLCSet(7, [c \in DOMAIN MCConfigs |-> View(MCConfigs[c], Data.texts[c])])
ASSUME TLCSet(8, [c \in DOMAIN MCConfigs |-> TrieOf(MCConfigs[c], Data.texts[c])])
MCViewOf(c) == TLCGet(7)[c]
MCTrieAt(c) == TLCGet(8)[c]

VARIABLES ws,       \* words chosen so far
          lead      \* with a slash in front
mcvars == <<rvars, tvars, ws, lead>>

Depth(c, n) == Len(PathTo(Configs[c], n)) - 1
NodesAt(c, d) == {n \in NodesOf(Configs[c]) : Depth(c, n) = d}
Deepest(c) == Max({Depth(c, n) : n \in NodesOf(Configs[c])})

ValuesFor(typ) ==
    CASE typ \in {"String", "Text"} -> {<<113>>}                                   \* q
      [] typ \in {"u8", "Small"} -> {<<48, 55>>, <<50, 53, 54>>}                   \* 07 256
      [] typ \in Signed -> {<<45, 48>>, <<120>>}                                       \* -0 x
      [] typ = "bool" -> {<<116, 114, 117, 101>>, <<116, 114, 117>>}               \* true tru
      [] typ = "char" -> {<<195, 169>>, <<97, 98>>}                                \* e-acute ab
      [] typ = "Uuid" -> {<<48, 48, 102, 102>>, <<48, 48, 70, 70>>}
      [] OTHER -> {<<43, 53>>, <<45, 49>>}                                         \* +5 -1

Near(t) == {t, SubSeq(t, 1, Len(t) - 1), Append(t, 120)}
WordsAt(c, d) ==
    {<<>>} \cup
    UNION {IF IsStatic(Configs[c], n) THEN Near(ViewOf(c).text[n]) ELSE ValuesFor(Configs[c].nodes[n].seg.typ)
             : n \in NodesAt(c, d)}
    \cup (IF d > Deepest(c) THEN {<<122>>, <<55>>} ELSE {})
    \cup (IF Noise THEN {<<255>>} ELSE {})
ASSUME TLCSet(9, [c \in DOMAIN MCConfigs |->
                    [d \in 1..Min({Deepest(c) + Extra, Deeper}) |-> WordsAt(c, d)]])

(* the harness replays exactly these requests into the real matcher *)
ASSUME PrintT("WORDS " \o ToJson(TLCGet(9)))

RequestMethods == {<<71, 69, 84>>, <<80, 85, 84>>, <<71, 69>>}       \* GET PUT GE

MCInit == /\ cid \in DOMAIN Configs
          /\ path = <<>> /\ method = <<>>
          /\ phase = "compose" /\ at = 1 /\ segs = <<>> /\ k = 1
          /\ binds = <<>> /\ dev = {} /\ out = Pending
          /\ ws = <<>> /\ lead \in BOOLEAN
          /\ TIdle

Word == /\ phase = "compose" /\ Len(ws) < Len(TLCGet(9)[cid])
        /\ \E w \in TLCGet(9)[cid][Len(ws) + 1] : ws' = Append(ws, w)
        /\ UNCHANGED <<rvars, tvars, lead>>
Ask == /\ phase = "compose" /\ phase' = "start"
       /\ path' = (IF lead THEN <<Slash>> ELSE <<>>) \o JoinWith(ws, <<Slash>>)
       /\ method' \in RequestMethods
       /\ UNCHANGED <<cid, at, segs, k, binds, dev, out, tvars, ws, lead>>

Quiet == UNCHANGED <<tvars, ws, lead>>
MCNext == \/ Word \/ Ask
          \/ (Correct \/ Deviate) /\ Quiet
          \/ WithTrie /\ dev = {} /\ (TStart \/ TStep) /\ UNCHANGED <<rvars, ws, lead>>
          \/ phase = "done" /\ (~WithTrie \/ dev # {} \/ tmode = "done") /\ UNCHANGED mcvars

Done == phase = "done" /\ dev = {}

-----------------------------------------------------------------------------
(* The meaning of a request, said without walking: which blocks have this  *)
(* path.                                                                   *)
Cfg == Configs[cid]
(* per block, the segments leading to it: [k, text, name, typ, others], others
   being the names of static blocks beside it *)
WayTo(c, n) == LET p == PathTo(Configs[c], n) IN
    [j \in 1..(Len(p) - 1) |->
        LET sg == Configs[c].nodes[p[j + 1]].seg IN
        [k |-> sg.k, name |-> sg.name, typ |-> sg.typ, text |-> ViewOf(c).text[p[j + 1]],
         others |-> {ViewOf(c).text[m] : m \in StaticKids(Configs[c], p[j])}]]
ASSUME TLCSet(10, [c \in DOMAIN MCConfigs |-> [n \in NodesOf(Configs[c]) |-> WayTo(c, n)]])
WayIn(c, n) == TLCGet(10)[c][n]
Way(n) == WayIn(cid, n)

(* a segment of the way to a block takes the text s, parsing aside *)
Takes(sg, s) == IF sg.k = "static" THEN s = sg.text ELSE s \notin sg.others
FitsIn(c, n, ss) == LET w == WayIn(c, n) IN Len(w) = Len(ss) /\ \A j \in 1..Len(ss) : Takes(w[j], ss[j])
BadIn(c, n, ss) == LET w == WayIn(c, n) IN {j \in 1..Len(ss) : w[j].k = "dyn" /\ ~Parses(w[j].typ, ss[j])}

(* blocks whose parameter is the first one that fails; blocks with this path *)
FirstBadIn(c, ss) == {n \in NodesOf(Configs[c]) : LET d == Len(WayIn(c, n)) IN
                    /\ d \in 1..Len(ss)
                    /\ LET h == SubSeq(ss, 1, d) IN FitsIn(c, n, h) /\ BadIn(c, n, h) = {d}}
ExactlyIn(c, ss) == {n \in NodesOf(Configs[c]) : FitsIn(c, n, ss) /\ BadIn(c, n, ss) = {}}

BindsIn(c, n, ss) ==
    LET w == WayIn(c, n)  q == Sorted({j \in 1..Len(ss) : w[j].k = "dyn"})
    IN [j \in DOMAIN q |-> [name |-> w[q[j]].name, typ |-> w[q[j]].typ, val |-> ss[q[j]]]]

(* What the segments ss mean in configuration c *)
MeaningIn(c, ss, m) ==
    IF FirstBadIn(c, ss) # {} THEN Failure(Configs[c].nodes[CHOOSE n \in FirstBadIn(c, ss) : TRUE].seg.name)
    ELSE IF ExactlyIn(c, ss) = {} THEN NotFound
    ELSE LET n == CHOOSE n \in ExactlyIn(c, ss) : TRUE
             rs == Configs[c].nodes[n].res
             hit == {r \in DOMAIN rs : ViewOf(c).meth[n][r] = m}
         IN IF rs = <<>> THEN NotFound ELSE IF hit = {} THEN NotAllowed
            ELSE Matched(c, n, CHOOSE r \in hit : TRUE, BindsIn(c, n, ss))

Fits(n, ss) == FitsIn(cid, n, ss)
BadAt(n, ss) == BadIn(cid, n, ss)
FirstBad(ss) == FirstBadIn(cid, ss)
Exactly(ss) == ExactlyIn(cid, ss)
BindsOf(n, ss) == BindsIn(cid, n, ss)
Meaning(p, m) == MeaningIn(cid, Segments(p), m)

IsMatched(o) == o.kind \in {"Route", "Redirect"}

(* Nothing to choose: at most one block has the path, one parameter fails *)
Unambiguous == Done => Cardinality(Exactly(segs)) <= 1 /\ Cardinality(FirstBad(segs)) <= 1

C01_Dispatch == Done => \A n \in NodesOf(Cfg), r \in 1..4 :
    (r \in DOMAIN Cfg.nodes[n].res /\ Fits(n, segs) /\ BadAt(n, segs) = {} /\ ViewOf(cid).meth[n][r] = method)
        => IsMatched(out) /\ out.node = n /\ out.res = r
C02_Unknown == Done /\ out.kind # "Err" =>
    /\ (out.kind = "NotFound") <=> ~\E n \in Exactly(segs) : Cfg.nodes[n].res # <<>>
    /\ (out.kind = "NotAllowed") <=> \E n \in Exactly(segs) :
            Cfg.nodes[n].res # <<>> /\ ~\E r \in DOMAIN Cfg.nodes[n].res : ViewOf(cid).meth[n][r] = method
C03_Bytes == Done /\ IsMatched(out) => binds = BindsOf(out.node, segs)
C04_Malformed == Done => /\ (out.kind = "Err") <=> FirstBad(segs) # {}
                         /\ \A n \in FirstBad(segs) : out = Failure(Cfg.nodes[n].seg.name)
                         /\ \A j \in DOMAIN binds : Parses(binds[j].typ, binds[j].val)
(* other spellings of the same path *)
WithLead == IF path # <<>> /\ path[1] = Slash THEN path ELSE <<Slash>> \o path
WithTail == IF path # <<>> /\ path[Len(path)] # Slash THEN Append(path, Slash) ELSE path
C05_Slashes == Done => /\ Meaning(WithLead, method) = out
                       /\ Meaning(WithTail, method) = out
                       /\ IsMatched(out) => \A j \in DOMAIN segs : segs[j] = <<>> => Way(out.node)[j].k = "dyn"
C06_Ends == Done => out.kind \in {"NotFound", "NotAllowed", "Route", "Redirect", "Err"}
Declared(n, b) == <<Slash>> \o JoinWith([j \in DOMAIN Way(n) |->
                    IF Way(n)[j].k = "static" THEN Way(n)[j].text
                    ELSE LET q == Cardinality({x \in 1..j : Way(n)[x].k = "dyn"}) IN Prints(b[q].typ, b[q].val)], <<Slash>>)
(* the path a matched route prints leads back to it, unless a printed value is a static name *)
Plain(n, b) == \A j \in DOMAIN Way(n) : Way(n)[j].k = "dyn" =>
                 LET q == Cardinality({x \in 1..j : Way(n)[x].k = "dyn"})  v == Prints(b[q].typ, b[q].val)
                 IN v # <<>> /\ v \notin Way(n)[j].others
C07_RoundTrip == Done /\ out.kind = "Route" /\ Plain(out.node, binds) =>
    Meaning(Declared(out.node, binds), method) = out
C08_Redirects == Done /\ IsMatched(out) =>
    LET rs == Cfg.nodes[out.node].res[out.res] IN
    /\ out.kind = "Redirect" <=> rs.redirect
    /\ out.kind = "Redirect" =>
         \E q \in Serving(Cfg) : /\ SameName(ResAt(Cfg, q), rs)
                                 /\ {<<p.name, p.typ>> : p \in SeqSet(PathParams(Cfg, q[1]))}
                                      = {<<binds[j].name, binds[j].typ>> : j \in DOMAIN binds}
Agreed == Done => out = Meaning(path, method)

(* No choice among static blocks; the guards of Descend, Bind, Miss and Answer exclude one another *)
Deterministic == phase = "walk" /\ MoreSegs => Cardinality(ByName) <= 1

(* Mounting (C14): Data.mounts[c], where not 0, says that configuration c is   *)
(* `a' with `b' mounted at `name'.                                         *)
Mounts == Data.mounts
C14_Mounted ==
    Done /\ Mounts[cid].a # 0 =>
    LET mt == Mounts[cid]
        off == Len(Configs[mt.a].nodes)
        moved(o) == IF IsMatched(o) THEN [o EXCEPT !.node = IF @ = 1 THEN off + 1 ELSE @ + off] ELSE o
    IN out = IF segs # <<>> /\ segs[1] = mt.name
             THEN moved(MeaningIn(mt.b, Tail(segs), method))
             ELSE MeaningIn(mt.a, segs, method)

-----------------------------------------------------------------------------
(* Router with the known deviations taken wherever they can be             *)
RECURSIVE Walk(_, _, _, _)
Walk(n, j, b, ss) ==
    LET nd == Configs[cid].nodes[n]
        st == ViewOf(cid).stat[n]  dy == ViewOf(cid).dyn[n]  pre == ViewOf(cid).lcp[n]
        byname == IF j > Len(ss) THEN {} ELSE {m \in st : ViewOf(cid).text[m] = ss[j]}
        whole == \E m \in st : ViewOf(cid).text[m] = pre
        peek == st # {} /\ dy # 0 /\ pre # <<>>
        bind(text) == LET sg == Configs[cid].nodes[dy].seg IN
            IF ~IsUtf8(text) THEN Panic
            ELSE IF ~Parses(sg.typ, text) THEN Failure(sg.name)
            ELSE Walk(dy, j + 1, Append(b, [name |-> sg.name, typ |-> sg.typ, val |-> text]), ss)
    IN IF j > Len(ss)
       THEN IF j = Len(ss) + 1 /\ EndsOpen(path) /\ peek /\ nd.res = <<>> THEN bind(<<>>)
            ELSE AnswerOf(n, b)
       ELSE IF peek /\ ~whole THEN bind(ss[j])
       ELSE IF byname # {} THEN Walk(CHOOSE m \in byname : TRUE, j + 1, b, ss)
       ELSE IF peek /\ StartsWith(ss[j], pre) THEN NotFound
       ELSE IF dy # 0 THEN bind(ss[j])
       ELSE NotFound

TrieRefines == tmode = "done" => tout = Walk(1, 1, <<>>, Segments(path))
(* without a deviation in sight, the trie is right *)
NoDeviation == \A n \in NodesOf(Cfg) : StaticKids(Cfg, n) = {} \/ DynKid(Cfg, n) = 0 \/ ViewOf(cid).lcp[n] = <<>>
TrieRight == tmode = "done" /\ NoDeviation /\ IsUtf8(path) => tout = out
TrieInside == tmode # "idle" => tnode \in DOMAIN T /\ ti \in 0..Len(path)
TrieMoves ==
    \/ tmode \notin {"node", "sep", "dyn"}
    \/ tmode' = "done"
    \/ UNCHANGED tvars
    \/ Len(tnode') + ti' > Len(tnode) + ti
    \/ tmode = "node" /\ tmode' # "node"
TrieEnds == [][TrieMoves]_mcvars
=============================================================================
