------------------------------- MODULE KnxData -------------------------------
(***************************************************************************)
(* Addresses and datapoint types.  Texts are sequences of character codes. *)
(* Two byte floats are handled in units of 1/1600, of which the smallest   *)
(* step of the format (0.01) has 16, so that halves of it are integers.    *)
(***************************************************************************)
EXTENDS KnxWire

Abs(n) == IF n < 0 THEN -n ELSE n
Pow2(n) == 2 ^ n

----------------------------------------------------------------------------
\* Numbers and texts
IsDigit(c) == c >= 48 /\ c <= 57
RECURSIVE NumVal(_, _)
NumVal(t, acc) == IF t = <<>> THEN acc
                  ELSE IF acc > 100000 THEN acc          \* too big for any use here
                  ELSE NumVal(Tail(t), acc * 10 + (Head(t) - 48))
Num(t, max) ==           \* value of a decimal number, -1 if it is none or exceeds max
    IF t = <<>> \/ \E i \in 1..Len(t) : ~IsDigit(t[i]) THEN -1
    ELSE LET n == NumVal(t, 0) IN IF n > max THEN -1 ELSE n
RECURSIVE Split(_, _)
Split(t, sep) ==
    IF \A i \in 1..Len(t) : t[i] # sep THEN <<t>>
    ELSE LET i == CHOOSE j \in 1..Len(t) : t[j] = sep /\ \A k \in 1..(j - 1) : t[k] # sep
         IN  <<SubSeq(t, 1, i - 1)>> \o Split(SubSeq(t, i + 1, Len(t)), sep)
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>

Dot == 46
Slash == 47
----------------------------------------------------------------------------
\* Addresses
Individual(a, l, d) == a * 4096 + l * 256 + d
Group3(m, i, s) == m * 2048 + i * 256 + s
Group2(m, s) == m * 2048 + s
KInd == 0
KG1 == 1
KG2 == 2
KG3 == 3

ParseIndividual(t) ==
    LET p == Split(t, Dot)
    IN  IF Len(p) # 3 THEN Bad
        ELSE LET a == Num(p[1], 15)
                 l == Num(p[2], 15)
                 d == Num(p[3], 255)
             IN  IF a < 0 \/ l < 0 \/ d < 0 THEN Bad ELSE [ok |-> TRUE, kind |-> KInd, v |-> Individual(a, l, d)]
ParseGroup3(t) ==
    LET p == Split(t, Slash)
    IN  IF Len(p) # 3 THEN Bad
        ELSE LET m == Num(p[1], 31)
                 i == Num(p[2], 7)
                 x == Num(p[3], 255)
             IN  IF m < 0 \/ i < 0 \/ x < 0 THEN Bad ELSE [ok |-> TRUE, kind |-> KG3, v |-> Group3(m, i, x)]
ParseAddress(t) ==
    LET p == Split(t, Slash)
    IN  IF \E i \in 1..Len(t) : t[i] = Dot THEN ParseIndividual(t)
        ELSE CASE Len(p) = 1 ->
                    LET m == Num(p[1], 65535) IN IF m < 0 THEN Bad ELSE [ok |-> TRUE, kind |-> KG1, v |-> m]
               [] Len(p) = 2 ->
                    LET m == Num(p[1], 31)
                        x == Num(p[2], 255)
                    IN  IF m < 0 \/ x < 0 THEN Bad ELSE [ok |-> TRUE, kind |-> KG2, v |-> Group2(m, x)]
               [] Len(p) = 3 -> ParseGroup3(t)
               [] OTHER -> Bad
TextIndividual(v) == Digits(v \div 4096) \o <<Dot>> \o Digits((v \div 256) % 16) \o <<Dot>> \o Digits(v % 256)
TextGroup3(v) == Digits(v \div 2048) \o <<Slash>> \o Digits((v \div 256) % 8) \o <<Slash>> \o Digits(v % 256)

----------------------------------------------------------------------------
\* Two byte floats: sign, 4 bit exponent, 11 bits of a 12 bit two's complement mantissa
Signed(n, bits) == IF n >= Pow2(bits - 1) THEN n - Pow2(bits) ELSE n
FloatMantissa(w) == (w % 2048) - (IF w >= 32768 THEN 2048 ELSE 0)
FloatExp(w) == (w \div 2048) % 16
FloatVal(w) == FloatMantissa(w) * Pow2(FloatExp(w)) * 16       \* in 1/1600
FloatMax == 2047 * 32768 * 16
FloatMin == -2048 * 32768 * 16
\* Smallest exponent whose mantissa range contains k/1600
RECURSIVE Exponent(_, _)
Exponent(k, e) == IF e = 15 \/ (k <= 2047 * 16 * Pow2(e) /\ -k <= 2048 * 16 * Pow2(e)) THEN e ELSE Exponent(k, e + 1)
\* What single precision arithmetic may add to a result of this size
Rounding(k) == Abs(k) \div 2097152 + 1
\* w is an encoding of k/1600 that nobody can improve on by more than arithmetic rounding
Near(k, w) ==
    IF k > FloatMax THEN w = 32767
    ELSE IF k < FloatMin THEN w = 63488
    ELSE Abs(FloatVal(w) - k) <= 8 * Pow2(Exponent(k + (IF k < 0 THEN -Rounding(k) ELSE Rounding(k)), 0)) + Rounding(k)

----------------------------------------------------------------------------
\* Scaling: a byte stands for (byte - 1) / 2.54 percent, 0 for 0 percent
ScalVal(b) == IF b = 0 THEN 0 ELSE ((b - 1) * 1600 * 100) \div 254             \* in 1/1600 percent
\* p hundredths of a percent become the nearest byte: |ScalVal - p| <= half of 1/2.54
NearScal(p, b) ==
    IF p >= 10000 THEN b = 255
    ELSE IF p <= 0 THEN b \in {0, 1}
    ELSE Abs(ScalVal(b) - p * 16) <= 315 + 2
Sat16(n) == IF n > 32767 THEN 32767 ELSE IF n < -32768 THEN -32768 ELSE n
B16(n) == W16(IF n < 0 THEN n + 65536 ELSE n)

----------------------------------------------------------------------------
\* Labels: a datapoint value names its type as main.sub (main.x when only the main type is
\* known) and the unit its value is in, so that the receiver can tell what the bytes mean
Pad3(n) == <<48 + (n \div 100), 48 + ((n \div 10) % 10), 48 + (n % 10)>>
Sub0 == 0
Code(main, sub) == Digits(main) \o <<Dot>> \o (IF sub = Sub0 THEN <<120>> ELSE Pad3(sub))
Percent == <<37>>
Pulses == <<112, 117, 108, 115, 101, 115>>
Celsius == <<194, 176, 67>>                     \* UTF-8
\* How a value came about: of a plain value, of the first or second quantity of the type, or
\* of received bytes (which of a quantity)
General == 0
Named == 1
Other == 2
BytesNamed == 8
Bytes == 9
DptTypes == {"bit", "b1u3", "byte", "word", "ulong", "int", "scal", "float"}
Ways(t) ==
    {General, Bytes} \cup (CASE t \in {"bit", "scal"} -> {Named} [] t \in {"b1u3", "int"} -> {Named, Other}
                             [] t = "float" -> {Named, BytesNamed} [] OTHER -> {})
Main(t) == CASE t = "bit" -> 1 [] t = "b1u3" -> 3 [] t = "scal" -> 5 [] t = "word" -> 7 [] t = "int" -> 8
             [] t = "float" -> 9 [] t = "ulong" -> 12 [] t = "byte" -> 20
SubOf(t, w) ==
    CASE t = "bit" /\ w = Named -> 1
      [] t = "b1u3" /\ w = Named -> 7
      [] t = "b1u3" /\ w = Other -> 8
      [] t = "scal" /\ w \in {Named, Bytes} -> 1
      [] t = "int" /\ w = Named -> 1
      [] t = "int" /\ w = Other -> 10
      [] t = "float" /\ w \in {Named, BytesNamed} -> 1
      [] OTHER -> Sub0
UnitOf(t, w) ==
    LET s == SubOf(t, w)
    IN  CASE t = "scal" /\ s = 1 -> Percent
          [] t = "int" /\ s = 1 -> Pulses
          [] t = "int" /\ s = 10 -> Percent
          [] t = "float" /\ s = 1 -> Celsius
          [] OTHER -> <<>>
\* Bytes a value of the type is read from: too few are refused
Needs(t) == CASE t \in {"word", "int", "float"} -> 2 [] t = "ulong" -> 4 [] OTHER -> 1
Readable(t, n) == IF t = "float" THEN n = 2 ELSE n >= Needs(t)
=============================================================================
