------------------------------ MODULE WordText ------------------------------
(***************************************************************************)
(* The textual form of a word in radix 2, 8 and 16, with Rust's number     *)
(* format flags.  Used to decide what the number formats must print.       *)
(***************************************************************************)
EXTENDS Words, TLC

LowerDigits == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
UpperDigits == <<"0","1","2","3","4","5","6","7","8","9","A","B","C","D","E","F">>

\* value of the k bits of a starting at position i
DigitAt(a, i, k) ==
    (IF i \in a THEN 1 ELSE 0)
    + (IF k > 1 /\ i + 1 \in a THEN 2 ELSE 0)
    + (IF k > 2 /\ i + 2 \in a THEN 4 ELSE 0)
    + (IF k > 3 /\ i + 3 \in a THEN 8 ELSE 0)

RECURSIVE Digits(_, _, _, _)
\* the digits of positions 0..m (m-th digit first)
Digits(a, k, tab, m) ==
    IF m < 0 THEN "" ELSE tab[1 + DigitAt(a, m * k, k)] \o Digits(a, k, tab, m - 1)

NumDigits(a, k) == IF a = {} THEN 1 ELSE 1 + (Top(a) \div k)

Radix(kind) == CASE kind = "b" -> 1 [] kind = "o" -> 3 [] OTHER -> 4
Prefix(kind) == CASE kind = "b" -> "0b" [] kind = "o" -> "0o" [] OTHER -> "0x"
Table(kind) == IF kind = "X" THEN UpperDigits ELSE LowerDigits

Plain(a, kind) == Digits(a, Radix(kind), Table(kind), NumDigits(a, Radix(kind)) - 1)
LenPlain(a, kind) == NumDigits(a, Radix(kind))

RECURSIVE Rep(_, _)
Rep(s, n) == IF n <= 0 THEN "" ELSE s \o Rep(s, n - 1)

(***************************************************************************)
(* kind:  x X b o p;  plus: '+';  alt: '#';  zero: '0';  width: 0 for none; *)
(* fill: a one-character string;  align: "<" "^" ">" or "" for none.       *)
(* Rust's rules: numbers are right-aligned by default; '0' overrides fill  *)
(* and alignment and puts the zeros after the prefix; pointers always      *)
(* print the prefix, and '#' makes them zero-padded to 18 columns; '+'      *)
(* puts a sign before the prefix; a precision means nothing.               *)
(***************************************************************************)
Pad(plus, pre0, body, len, zero, width, fill, align) ==
    LET pre == (IF plus THEN "+" ELSE "") \o pre0
        full == len + (IF pre0 = "" THEN 0 ELSE 2) + (IF plus THEN 1 ELSE 0)
        gap == IF width > full THEN width - full ELSE 0
    IN  IF zero THEN pre \o Rep("0", gap) \o body
        ELSE CASE align = "<" -> pre \o body \o Rep(fill, gap)
               [] align = "^" -> Rep(fill, gap \div 2) \o pre \o body \o Rep(fill, gap - (gap \div 2))
               [] OTHER -> Rep(fill, gap) \o pre \o body

NumText(a, f) ==
    IF f.kind = "p"
    THEN Pad(f.plus, "0x", Plain(a, "x"), LenPlain(a, "x"),
             f.zero \/ f.alt,
             IF f.alt /\ f.width = 0 THEN 18 ELSE f.width, f.fill, f.align)
    ELSE Pad(f.plus, IF f.alt THEN Prefix(f.kind) ELSE "", Plain(a, f.kind), LenPlain(a, f.kind),
             f.zero, f.width, f.fill, f.align)
=============================================================================
