------------------------------- MODULE Chars -------------------------------
(* Characters and texts.                                                    *)
(*                                                                          *)
(* A *text* is a sequence of bytes (0..255), exactly what the real API is   *)
(* given and returns.  RFC 5646 is case-insensitive and treats all digits   *)
(* alike, so the grammar works on *symbols*: 26 letters, one symbol for the *)
(* ten digits, the hyphen, and one symbol for every other byte.             *)
EXTENDS Naturals, Sequences

Byte == 0..255

Letters == << "a","b","c","d","e","f","g","h","i","j","k","l","m",
              "n","o","p","q","r","s","t","u","v","w","x","y","z" >>

ALPHA == { Letters[i] : i \in 1..26 }
DIGIT == {"0"}
HYPHEN == "-"
JUNK == "#"          \* any byte that no production mentions

Symbols == ALPHA \cup DIGIT \cup {HYPHEN, JUNK}

IsUpper(b) == b \in 65..90
IsLower(b) == b \in 97..122
IsAlphaB(b) == IsUpper(b) \/ IsLower(b)
IsDigitB(b) == b \in 48..57
IsAlnumB(b) == IsAlphaB(b) \/ IsDigitB(b)
Dash == 45

\* ASCII case folding: the only notion of case in the whole system.
Fold(b) == IF IsUpper(b) THEN b + 32 ELSE b
FoldText(t) == [i \in 1..Len(t) |-> Fold(t[i])]

\* byte -> symbol
Sym(b) == IF IsAlphaB(b) THEN Letters[Fold(b) - 96]
          ELSE IF IsDigitB(b) THEN "0"
          ELSE IF b = Dash THEN HYPHEN
          ELSE JUNK
SymText(t) == [i \in 1..Len(t) |-> Sym(t[i])]

\* TLA+ string literal -> sequence of one-character strings
Explode(str) == [i \in 1..Len(str) |-> SubSeq(str, i, i)]

\* TLA+ string literal -> text
AsciiPrintable == Explode(
  " !?#$%&?()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[?]^_`abcdefghijklmnopqrstuvwxyz{|}~")
CodeOf == [c \in { AsciiPrintable[i] : i \in 1..95 } |->
             31 + (CHOOSE i \in 1..95 : AsciiPrintable[i] = c)]
Text(str) == [i \in 1..Len(str) |-> CodeOf[SubSeq(str, i, i)]]

(* Known deviation of the implementation (see known_findings): the UTF-8    *)
(* decoder it validates bytes with accepts over-long encodings.  The        *)
(* over-long encodings of the ASCII character c are                          *)
(*   C0+c\div 64, 80+c%64  |  E0, 80+c\div 64, 80+c%64                        *)
(*   |  F0, 80, 80+c\div 64, 80+c%64                                          *)
(* LenientAscii(t) is t with those replaced by the character they encode.   *)
Cont(b) == b \in 128..191
RECURSIVE LenientAscii(_)
LenientAscii(t) ==
  IF t = <<>> THEN <<>>
  ELSE IF Len(t) >= 2 /\ t[1] \in {192, 193} /\ Cont(t[2])
       THEN <<(t[1] - 192) * 64 + t[2] - 128>> \o LenientAscii(SubSeq(t, 3, Len(t)))
  ELSE IF Len(t) >= 3 /\ t[1] = 224 /\ t[2] \in {128, 129} /\ Cont(t[3])
       THEN <<(t[2] - 128) * 64 + t[3] - 128>> \o LenientAscii(SubSeq(t, 4, Len(t)))
  ELSE IF Len(t) >= 4 /\ t[1] = 240 /\ t[2] = 128 /\ t[3] \in {128, 129} /\ Cont(t[4])
       THEN <<(t[3] - 128) * 64 + t[4] - 128>> \o LenientAscii(SubSeq(t, 5, Len(t)))
  ELSE <<t[1]>> \o LenientAscii(SubSeq(t, 2, Len(t)))
=============================================================================
