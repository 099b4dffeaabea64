-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Text as the request matcher sees it: sequences of bytes (0..255).       *)
(* Names in configurations are TLA+ strings of printable ASCII; Ord and    *)
(* Str convert.  The second half models the value types a path parameter   *)
(* may have: which byte strings parse, and how the value prints.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

CharAt(s, k) == SubSeq(s, k, k)

OrdOf == [c \in {CharAt(Ascii, k) : k \in 1..95} |->
            31 + (CHOOSE k \in 1..95 : CharAt(Ascii, k) = c)]

Ord(s) == [k \in 1..Len(s) |-> OrdOf[CharAt(s, k)]]

Chr(b) == CharAt(Ascii, b - 31)

RECURSIVE Str(_)
Str(b) == IF b = <<>> THEN ""
          ELSE Chr(b[1]) \o Str(Tail(b))

Slash == 47
Newline == 10
Return == 13
Minus == 45
Plus == 43
Underscore == 95

IsUpper(b) == b \in 65..90
IsLower(b) == b \in 97..122
IsDigit(b) == b \in 48..57
ToUpper(b) == IF IsLower(b) THEN b - 32 ELSE b
ToLower(b) == IF IsUpper(b) THEN b + 32 ELSE b
IsIdentByte(b) == IsUpper(b) \/ IsLower(b) \/ IsDigit(b) \/ b = Underscore
IsIdentifier(s) == /\ Len(s) > 0
                   /\ \A k \in 1..Len(s) : IsIdentByte(Ord(s)[k])

(* p is a prefix of s *)
StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p

Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y

(* Longest common prefix of a non-empty set of byte sequences *)
CommonPrefix(S) ==
    LET s == CHOOSE s \in S : TRUE
    IN SubSeq(s, 1, Max({k \in 0..Len(s) : \A t \in S : StartsWith(t, SubSeq(s, 1, k))}))

(* Split at slashes; always at least one (possibly empty) piece *)
RECURSIVE Split(_)
Split(s) ==
    LET at == {k \in 1..Len(s) : s[k] = Slash}
    IN IF at = {} THEN <<s>>
       ELSE LET k == Min(at)
            IN <<SubSeq(s, 1, k - 1)>> \o Split(SubSeq(s, k + 1, Len(s)))

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))

RECURSIVE JoinWith(_, _)
JoinWith(ss, sep) ==
    IF ss = <<>> THEN <<>>
    ELSE IF Len(ss) = 1 THEN ss[1]
    ELSE ss[1] \o sep \o JoinWith(Tail(ss), sep)

RECURSIVE JoinStr(_, _)
JoinStr(ss, sep) ==
    IF ss = <<>> THEN ""
    ELSE IF Len(ss) = 1 THEN ss[1]
    ELSE ss[1] \o sep \o JoinStr(Tail(ss), sep)

(***************************************************************************)
(* UTF-8 (RFC 3629) as a four-state acceptor folded over the bytes:        *)
(* need = continuation bytes still due, lo..hi = range of the next one.    *)
(***************************************************************************)
RECURSIVE Utf8From(_, _, _, _, _)
Utf8From(s, k, need, lo, hi) ==
    IF k > Len(s) THEN need = 0
    ELSE LET b == s[k] IN
         IF need > 0
         THEN b >= lo /\ b <= hi /\ Utf8From(s, k + 1, need - 1, 128, 191)
         ELSE CASE b <= 127 -> Utf8From(s, k + 1, 0, 128, 191)
                [] b >= 194 /\ b <= 223 -> Utf8From(s, k + 1, 1, 128, 191)
                [] b = 224 -> Utf8From(s, k + 1, 2, 160, 191)
                [] (b >= 225 /\ b <= 236) \/ b = 238 \/ b = 239 -> Utf8From(s, k + 1, 2, 128, 191)
                [] b = 237 -> Utf8From(s, k + 1, 2, 128, 159)
                [] b = 240 -> Utf8From(s, k + 1, 3, 144, 191)
                [] b >= 241 /\ b <= 243 -> Utf8From(s, k + 1, 3, 128, 191)
                [] b = 244 -> Utf8From(s, k + 1, 3, 128, 143)
                [] OTHER -> FALSE
IsUtf8(s) == Utf8From(s, 1, 0, 128, 191)

(* Number of characters of a valid UTF-8 string *)
CharCount(s) == Cardinality({k \in 1..Len(s) : s[k] < 128 \/ s[k] > 191})

(***************************************************************************)
(* Parameter types.  Each is a pair of operators: does the text parse, and *)
(* how does the parsed value print (Display).                              *)
(***************************************************************************)
AllDigits(s) == Len(s) > 0 /\ \A k \in 1..Len(s) : IsDigit(s[k])

RECURSIVE DropZeros(_)
DropZeros(s) == IF Len(s) > 1 /\ s[1] = 48 THEN DropZeros(Tail(s)) ELSE s

NoSign(s) == IF Len(s) > 0 /\ s[1] \in {Plus, Minus} THEN Tail(s) ELSE s
Negative(s) == Len(s) > 0 /\ s[1] = Minus

(* Decimal numerals of any length, compared with a limit given as numeral *)
NotAbove(d, max) == \/ Len(d) < Len(max)
                    \/ /\ Len(d) = Len(max)
                       /\ \/ d = max
                          \/ \E k \in 1..Len(d) : d[k] < max[k] /\ \A j \in 1..(k - 1) : d[j] = max[j]

Signed == {"i8", "i16", "i32", "i64", "isize", "i128"}
Unsigned == {"u8", "Small", "u16", "u32", "u64", "usize", "u128"}

(* What each integer type reaches upwards, and downwards where it does *)
Upmost(typ) ==
    CASE typ = "u8" -> <<50, 53, 53>>   \* 255
      [] typ = "Small" -> <<50, 53, 53>>   \* 255
      [] typ = "u16" -> <<54, 53, 53, 51, 53>>   \* 65535
      [] typ = "u32" -> <<52, 50, 57, 52, 57, 54, 55, 50, 57, 53>>   \* 4294967295
      [] typ = "u64" -> <<49, 56, 52, 52, 54, 55, 52, 52, 48, 55, 51, 55, 48, 57, 53, 53, 49, 54, 49, 53>>   \* 18446744073709551615
      [] typ = "usize" -> <<49, 56, 52, 52, 54, 55, 52, 52, 48, 55, 51, 55, 48, 57, 53, 53, 49, 54, 49, 53>>   \* 18446744073709551615
      [] typ = "u128" -> <<51, 52, 48, 50, 56, 50, 51, 54, 54, 57, 50, 48, 57, 51, 56, 52, 54, 51, 52, 54, 51, 51, 55, 52, 54, 48, 55, 52, 51, 49, 55, 54, 56, 50, 49, 49, 52, 53, 53>>   \* 340282366920938463463374607431768211455
      [] typ = "i8" -> <<49, 50, 55>>   \* 127
      [] typ = "i16" -> <<51, 50, 55, 54, 55>>   \* 32767
      [] typ = "i32" -> <<50, 49, 52, 55, 52, 56, 51, 54, 52, 55>>   \* 2147483647
      [] typ = "i64" -> <<57, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56, 53, 52, 55, 55, 53, 56, 48, 55>>   \* 9223372036854775807
      [] typ = "isize" -> <<57, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56, 53, 52, 55, 55, 53, 56, 48, 55>>   \* 9223372036854775807
      [] typ = "i128" -> <<49, 55, 48, 49, 52, 49, 49, 56, 51, 52, 54, 48, 52, 54, 57, 50, 51, 49, 55, 51, 49, 54, 56, 55, 51, 48, 51, 55, 49, 53, 56, 56, 52, 49, 48, 53, 55, 50, 55>>   \* 170141183460469231731687303715884105727
Lowest(typ) ==
    CASE typ = "i8" -> <<49, 50, 56>>   \* 128
      [] typ = "i16" -> <<51, 50, 55, 54, 56>>   \* 32768
      [] typ = "i32" -> <<50, 49, 52, 55, 52, 56, 51, 54, 52, 56>>   \* 2147483648
      [] typ = "i64" -> <<57, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56, 53, 52, 55, 55, 53, 56, 48, 56>>   \* 9223372036854775808
      [] typ = "isize" -> <<57, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56, 53, 52, 55, 55, 53, 56, 48, 56>>   \* 9223372036854775808
      [] typ = "i128" -> <<49, 55, 48, 49, 52, 49, 49, 56, 51, 52, 54, 48, 52, 54, 57, 50, 51, 49, 55, 51, 49, 54, 56, 55, 51, 48, 51, 55, 49, 53, 56, 56, 52, 49, 48, 53, 55, 50, 56>>   \* 170141183460469231731687303715884105728

IntegerIn(typ, s) ==
    LET d == NoSign(s) IN
    /\ AllDigits(d)
    /\ IF Negative(s) THEN typ \in Signed /\ NotAbove(DropZeros(d), Lowest(typ))
       ELSE NotAbove(DropZeros(d), Upmost(typ))

(* Four numbers up to 255 without leading zeros, between dots *)
Dot == 46
Dots(s) == {k \in 1..Len(s) : s[k] = Dot}
IsOctet(s) == /\ Len(s) \in 1..3 /\ AllDigits(s) /\ NotAbove(s, Upmost("u8"))
              /\ s[1] = 48 => Len(s) = 1
IsIpv4(s) == /\ Cardinality(Dots(s)) = 3
             /\ LET a == Min(Dots(s))  c == Max(Dots(s))  b == Min(Dots(s) \ {a}) IN
                /\ IsOctet(SubSeq(s, 1, a - 1)) /\ IsOctet(SubSeq(s, a + 1, b - 1))
                /\ IsOctet(SubSeq(s, b + 1, c - 1)) /\ IsOctet(SubSeq(s, c + 1, Len(s)))

IsHexDigit(b) == IsDigit(b) \/ b \in 97..102

(* Text, Small, Uuid and Ipv4Addr are not in scope by default: a header imports them *)
ParamTypes == {"String", "bool", "char", "Uuid", "Text", "Ipv4Addr"} \cup Unsigned \cup Signed
ImportOf == [Uuid     |-> "use uuid::Uuid;",
             Text     |-> "use std::string::String as Text;",
             Small    |-> "use std::primitive::u8 as Small;",
             Ipv4Addr |-> "use std::net::Ipv4Addr;"]
Imported == DOMAIN ImportOf

Parses(typ, s) ==
    /\ IsUtf8(s)
    /\ CASE typ \in {"String", "Text"} -> TRUE
         [] typ \in Signed \cup Unsigned -> IntegerIn(typ, s)
         [] typ = "bool" -> s \in {<<116, 114, 117, 101>>, <<102, 97, 108, 115, 101>>}   \* "true", "false"
         [] typ = "char" -> CharCount(s) = 1
         [] typ = "Uuid" -> Len(s) = 4 /\ \A k \in 1..Len(s) : IsHexDigit(s[k])
         [] typ = "Ipv4Addr" -> IsIpv4(s)

Prints(typ, s) ==
    IF typ \notin Signed \cup Unsigned THEN s
    ELSE LET d == DropZeros(NoSign(s)) IN IF Negative(s) /\ d # <<48>> THEN <<Minus>> \o d ELSE d
=============================================================================
