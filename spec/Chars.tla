-------------------------------- MODULE Chars --------------------------------
(***************************************************************************)
(* Character classes.  Those of ASCII are written out; the others are      *)
(* looked up in the tables of Unicode.tla.                                 *)
(***************************************************************************)
EXTENDS Integers, Unicode

IsDigit(c) == c >= 48 /\ c <= 57
IsAsciiAlpha(c) == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122)
IsAsciiAlnum(c) == IsDigit(c) \/ IsAsciiAlpha(c)
IsAlpha(c) == IF c < 128 THEN IsAsciiAlpha(c) ELSE IsIn(AlphaRanges, c)
IsAlnum(c) == IF c < 128 THEN IsAsciiAlnum(c) ELSE IsIn(AlphaRanges, c) \/ IsIn(NumRanges, c)
IsSpace(c) == IF c < 128 THEN c = 32 \/ (c >= 9 /\ c <= 13) ELSE IsIn(SpaceRanges, c)
IsIdentChar(c) == IsAlnum(c) \/ c = 95

\* the character that follows a backslash for c, or 0 if c is written as it is
EscapeOf(c) == CASE c = 10 -> 110 [] c = 9 -> 116 [] c = 34 -> 34 [] c = 39 -> 39 [] c = 13 -> 114 [] c = 92 -> 92 [] c = 0 -> 48 [] OTHER -> 0
\* the character meant by an escape code, or -1
Unescape(c) == CASE c = 110 -> 10 [] c = 116 -> 9 [] c = 34 -> 34 [] c = 39 -> 39 [] c = 114 -> 13 [] c = 92 -> 92 [] c = 48 -> 0 [] OTHER -> -1
=============================================================================
