------------------------------- MODULE KdlLex -------------------------------
(***************************************************************************)
(* The lexical level of KDL v2: character classes, whitespace, comments,   *)
(* strings, numbers and keywords, as total functions of a text (a sequence *)
(* of Unicode code points) and a position (1-based).                       *)
(*                                                                         *)
(* Functions named ...End return the position after the longest match      *)
(* (their argument when nothing matches) or 0 when the text is already     *)
(* wrong at this point (for example an unterminated block comment).        *)
(* Functions named ...Tok return [ok, end, v].                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, KdlNum

EOF == -1
At(s, p) == IF p >= 1 /\ p <= Len(s) THEN s[p] ELSE EOF

(* ---- character classes ------------------------------------------------ *)
UnicodeSpace == {9, 32, 160, 5760} \cup (8192..8202) \cup {8239, 8287, 12288}
NewlineChar  == {10, 13, 133, 11, 12, 8232, 8233}
Disallowed   == (0..8) \cup (14..31) \cup {127} \cup {8206, 8207} \cup (8234..8238) \cup (8294..8297) \cup {65279}
IdentPunct   == {92, 47, 40, 41, 123, 125, 91, 93, 59, 34, 35, 61}   \* \ / ( ) { } [ ] ; " # =
Digit        == 48..57
IsSpace(c)   == c \in UnicodeSpace
IsNl(c)      == c \in NewlineChar
IsIdentChar(c) == c # EOF /\ c \notin IdentPunct /\ c \notin UnicodeSpace /\ c \notin NewlineChar /\ c \notin Disallowed
IsSign(c)    == c = 43 \/ c = 45
HexVal(c)    == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE -1

(* length of the newline at p: CRLF counts as one newline *)
NlLen(s, p) == IF At(s, p) = 13 /\ At(s, p + 1) = 10 THEN 2 ELSE IF IsNl(At(s, p)) THEN 1 ELSE 0

StartsWith(s, p, t) == p + Len(t) - 1 <= Len(s) /\ \A i \in 1..Len(t) : s[p + i - 1] = t[i]

(* ---- whitespace and comments ------------------------------------------ *)
RECURSIVE BlockComment(_, _, _)
(* p is inside a comment nested d deep *)
BlockComment(s, p, d) ==
  IF p > Len(s) THEN 0
  ELSE IF s[p] = 42 /\ At(s, p + 1) = 47 THEN IF d = 1 THEN p + 2 ELSE BlockComment(s, p + 2, d - 1)
  ELSE IF s[p] = 47 /\ At(s, p + 1) = 42 THEN BlockComment(s, p + 2, d + 1)
  ELSE BlockComment(s, p + 1, d)

IsBlock(s, p) == At(s, p) = 47 /\ At(s, p + 1) = 42      \* /*
IsLineC(s, p) == At(s, p) = 47 /\ At(s, p + 1) = 47      \* //
IsDash(s, p)  == At(s, p) = 47 /\ At(s, p + 1) = 45      \* /-

RECURSIVE LineCommentBody(_, _)
LineCommentBody(s, p) ==
  IF p > Len(s) THEN p ELSE IF NlLen(s, p) > 0 THEN p + NlLen(s, p) ELSE LineCommentBody(s, p + 1)
LineCommentEnd(s, p) == LineCommentBody(s, p + 2)

RECURSIVE WsEnd(_, _)
WsEnd(s, p) ==
  IF IsSpace(At(s, p)) THEN WsEnd(s, p + 1)
  ELSE IF IsBlock(s, p) THEN LET q == BlockComment(s, p + 2, 1) IN IF q = 0 THEN 0 ELSE WsEnd(s, q)
  ELSE p

(* a line continuation at p: backslash, whitespace, then comment, newline or end of text *)
EscLineEnd(s, p) ==
  IF At(s, p) # 92 THEN p
  ELSE LET q == WsEnd(s, p + 1) IN
       IF q = 0 THEN 0
       ELSE IF IsLineC(s, q) THEN LineCommentEnd(s, q)
       ELSE IF NlLen(s, q) > 0 THEN q + NlLen(s, q)
       ELSE IF At(s, q) = EOF THEN q
       ELSE p

RECURSIVE NodeSpaceEnd(_, _)
NodeSpaceEnd(s, p) ==
  LET q == WsEnd(s, p) IN
  IF q = 0 THEN 0
  ELSE IF At(s, q) = 92
       THEN LET r == EscLineEnd(s, q) IN IF r = 0 THEN 0 ELSE IF r = q THEN q ELSE NodeSpaceEnd(s, r)
       ELSE q

RECURSIVE LineSpaceEnd(_, _)
LineSpaceEnd(s, p) ==
  LET q == NodeSpaceEnd(s, p) IN
  IF q = 0 THEN 0
  ELSE IF NlLen(s, q) > 0 THEN LineSpaceEnd(s, q + NlLen(s, q))
  ELSE IF IsLineC(s, q) THEN LineSpaceEnd(s, LineCommentEnd(s, q))
  ELSE q

(* ---- strings ----------------------------------------------------------- *)
Bad == [ok |-> FALSE, end |-> 0, v |-> <<>>]
Good(e, v) == [ok |-> TRUE, end |-> e, v |-> v]

RECURSIVE WsEscBody(_, _)
WsEscBody(s, p) ==
  IF IsSpace(At(s, p)) THEN WsEscBody(s, p + 1) ELSE IF NlLen(s, p) > 0 THEN WsEscBody(s, p + NlLen(s, p)) ELSE p
IsWsEsc(s, p) == At(s, p) = 92 /\ (IsSpace(At(s, p + 1)) \/ IsNl(At(s, p + 1)))
WsEscEnd(s, p) == WsEscBody(s, p + 1)

RECURSIVE HexRun(_, _, _)
HexRun(s, p, n) == IF n > 0 /\ HexVal(At(s, p)) >= 0 THEN HexRun(s, p + 1, n - 1) ELSE p
RECURSIVE HexNum(_, _, _, _)
HexNum(s, p, q, acc) == IF p = q THEN acc ELSE HexNum(s, p + 1, q, acc * 16 + HexVal(s[p]))

SimpleEsc == [c \in {92, 34, 98, 102, 110, 114, 116, 115} |->
   CASE c = 92 -> 92 [] c = 34 -> 34 [] c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] c = 115 -> 32]

(* an escape at p (s[p] is the backslash): [ok, end, v] with v the code point *)
EscapeTok(s, p) ==
  LET c == At(s, p + 1) IN
  IF c \in DOMAIN SimpleEsc THEN Good(p + 2, SimpleEsc[c])
  ELSE IF c = 117 /\ At(s, p + 2) = 123
  THEN LET q == HexRun(s, p + 3, 6) IN
       IF q = p + 3 \/ At(s, q) # 125 THEN Bad
       ELSE LET n == HexNum(s, p + 3, q, 0) IN
            IF n > 1114111 \/ n \in 55296..57343 THEN Bad ELSE Good(q + 1, n)
  ELSE Bad

RECURSIVE QuotedBody(_, _, _)
QuotedBody(s, p, acc) ==
  LET c == At(s, p) IN
  IF c = EOF \/ IsNl(c) \/ c \in Disallowed THEN Bad
  ELSE IF c = 34 THEN Good(p + 1, acc)
  ELSE IF c = 92
  THEN IF IsWsEsc(s, p) THEN QuotedBody(s, WsEscEnd(s, p), acc)
       ELSE LET e == EscapeTok(s, p) IN IF e.ok THEN QuotedBody(s, e.end, Append(acc, e.v)) ELSE Bad
  ELSE QuotedBody(s, p + 1, Append(acc, c))

(* Multi-line strings are read in the two steps the language prescribes.    *)
(* Step 1 splits the body into raw lines, removing whitespace escapes and   *)
(* keeping each line as a sequence of [c, lit] where lit tells whether the  *)
(* character was written literally (only literal whitespace is indentation).*)
(* The body ends at the first line made of literal whitespace (and          *)
(* whitespace escapes) followed by the closing quotes.                      *)
Q3(s, p) == At(s, p) = 34 /\ At(s, p + 1) = 34 /\ At(s, p + 2) = 34
Lit(c) == [c |-> c, lit |-> TRUE]
AllLitSpace(l) == \A i \in DOMAIN l : l[i].lit /\ IsSpace(l[i].c)

RECURSIVE MlLines(_, _, _, _)
(* returns [ok, end, lines]; the last element of lines is the closing line's indentation *)
MlLines(s, p, line, lines) ==
  LET c == At(s, p) IN
  IF c = EOF \/ c \in Disallowed THEN [ok |-> FALSE, end |-> 0, lines |-> <<>>]
  ELSE IF Q3(s, p)
  THEN IF AllLitSpace(line) THEN [ok |-> TRUE, end |-> p + 3, lines |-> Append(lines, line)]
       ELSE [ok |-> FALSE, end |-> 0, lines |-> <<>>]
  ELSE IF NlLen(s, p) > 0 THEN MlLines(s, p + NlLen(s, p), <<>>, Append(lines, line))
  ELSE IF c = 92
  THEN IF IsWsEsc(s, p) THEN MlLines(s, WsEscEnd(s, p), line, lines)
       ELSE LET e == EscapeTok(s, p) IN
            IF e.ok THEN MlLines(s, e.end, Append(line, [c |-> e.v, lit |-> FALSE]), lines)
            ELSE [ok |-> FALSE, end |-> 0, lines |-> <<>>]
  ELSE MlLines(s, p + 1, Append(line, Lit(c)), lines)

RECURSIVE RawMlLines(_, _, _, _, _)
RawMlLines(s, p, h, line, lines) ==
  LET c == At(s, p)
      closes == Q3(s, p) /\ \A i \in 1..h : At(s, p + 2 + i) = 35
  IN
  IF c = EOF \/ c \in Disallowed THEN [ok |-> FALSE, end |-> 0, lines |-> <<>>]
  ELSE IF closes
  THEN IF AllLitSpace(line) THEN [ok |-> TRUE, end |-> p + 3 + h, lines |-> Append(lines, line)]
       ELSE [ok |-> FALSE, end |-> 0, lines |-> <<>>]
  ELSE IF NlLen(s, p) > 0 THEN RawMlLines(s, p + NlLen(s, p), h, <<>>, Append(lines, line))
  ELSE RawMlLines(s, p + 1, h, Append(line, Lit(c)), lines)

(* Step 2 removes the closing line's indentation from every other line      *)
(* (which must start with exactly it, unless it is blank) and joins them.   *)
Chars(l) == [i \in DOMAIN l |-> l[i].c]
LineOk(l, pre) == AllLitSpace(l) \/ (Len(l) >= Len(pre) /\ SubSeq(l, 1, Len(pre)) = pre)
Dedent1(l, pre) == IF AllLitSpace(l) THEN <<>> ELSE Chars(SubSeq(l, Len(pre) + 1, Len(l)))
RECURSIVE JoinLines(_, _, _, _)
JoinLines(ls, i, pre, acc) ==
  IF i > Len(ls) THEN acc
  ELSE JoinLines(ls, i + 1, pre, acc \o (IF i > 1 THEN <<10>> ELSE <<>>) \o Dedent1(ls[i], pre))
Dedent(r) ==
  IF ~r.ok THEN Bad
  ELSE LET n == Len(r.lines)  pre == r.lines[n]  body == SubSeq(r.lines, 1, n - 1) IN
       IF \A i \in DOMAIN body : LineOk(body[i], pre) THEN Good(r.end, JoinLines(body, 1, pre, <<>>)) ELSE Bad

QuotedTok(s, p) ==
  IF Q3(s, p)
  THEN IF NlLen(s, p + 3) > 0 THEN Dedent(MlLines(s, p + 3 + NlLen(s, p + 3), <<>>, <<>>)) ELSE Bad
  ELSE QuotedBody(s, p + 1, <<>>)

RECURSIVE HashRun(_, _)
HashRun(s, p) == IF At(s, p) = 35 THEN HashRun(s, p + 1) ELSE p
RECURSIVE RawBody(_, _, _, _)
RawBody(s, p, h, acc) ==
  LET c == At(s, p) IN
  IF c = EOF \/ IsNl(c) \/ c \in Disallowed THEN Bad
  ELSE IF c = 34 /\ \A i \in 1..h : At(s, p + i) = 35 THEN Good(p + 1 + h, acc)
  ELSE RawBody(s, p + 1, h, Append(acc, c))
(* a single-line raw body may not look like the start of a multi-line one *)
RawBodyOk(b) == b # <<34>> /\ ~(Len(b) >= 2 /\ b[1] = 34 /\ b[2] = 34)
RawTok(s, p) ==
  LET q == HashRun(s, p)  h == q - p IN
  IF Q3(s, q) /\ NlLen(s, q + 3) > 0 THEN Dedent(RawMlLines(s, q + 3 + NlLen(s, q + 3), h, <<>>, <<>>))
  ELSE LET r == RawBody(s, q + 1, h, <<>>) IN IF r.ok /\ RawBodyOk(r.v) THEN r ELSE Bad

RECURSIVE IdentEnd(_, _)
IdentEnd(s, p) == IF IsIdentChar(At(s, p)) THEN IdentEnd(s, p + 1) ELSE p
Reserved == { <<116,114,117,101>>, <<102,97,108,115,101>>, <<110,117,108,108>>, <<105,110,102>>, <<45,105,110,102>>, <<110,97,110>> }
(* may a word starting here be a bare identifier (as opposed to a number)? *)
LooksNumeric(s, p) ==
  LET a == At(s, p)  b == At(s, p + 1)  c == At(s, p + 2) IN
  \/ a \in Digit
  \/ IsSign(a) /\ b \in Digit
  \/ a = 46 /\ b \in Digit
  \/ IsSign(a) /\ b = 46 /\ c \in Digit
IdentTok(s, p) ==
  LET q == IdentEnd(s, p)  w == SubSeq(s, p, q - 1) IN
  IF q = p \/ LooksNumeric(s, p) \/ w \in Reserved THEN Bad ELSE Good(q, w)

(* any string: bare, quoted or raw *)
IsRawStart(s, p) == At(s, p) = 35 /\ At(s, HashRun(s, p)) = 34
StringTok(s, p) ==
  IF At(s, p) = 34 THEN QuotedTok(s, p) ELSE IF At(s, p) = 35 THEN (IF IsRawStart(s, p) THEN RawTok(s, p) ELSE Bad) ELSE IdentTok(s, p)

(* ---- numbers and keywords ---------------------------------------------- *)
RECURSIVE DigitRun(_, _, _)
(* digits of the given radix and underscores *)
DigitRun(s, p, radix) ==
  IF At(s, p) = 95 \/ (HexVal(At(s, p)) >= 0 /\ HexVal(At(s, p)) < radix) THEN DigitRun(s, p + 1, radix) ELSE p
IsRadixDigit(c, radix) == HexVal(c) >= 0 /\ HexVal(c) < radix
RECURSIVE DigitVals(_, _, _, _)
DigitVals(s, p, q, acc) == IF p = q THEN acc ELSE DigitVals(s, p + 1, q, IF s[p] = 95 THEN acc ELSE Append(acc, HexVal(s[p])))

IntVal(neg, digs, radix) ==
  LET d == IF radix = 10 THEN StripZeros(digs) ELSE ToDecimal(digs, radix) IN
  [t |-> "i", n |-> IF neg /\ d # <<0>> THEN 1 ELSE 0, d |-> d]
InI128(v) == IF v.n = 1 THEN CmpDigits(v.d, I128MinAbs) <= 0 ELSE CmpDigits(v.d, I128Max) <= 0

(* p is at the first digit, neg the sign *)
PrefixedTok(s, p, neg, radix) ==
  IF ~IsRadixDigit(At(s, p), radix) THEN Bad
  ELSE LET q == DigitRun(s, p, radix)  v == IntVal(neg, DigitVals(s, p, q, <<>>), radix) IN
       IF InI128(v) THEN Good(q, v) ELSE Bad

DecimalTok(s, p, neg) ==
  LET q == DigitRun(s, p, 10)
      hasFrac == At(s, q) = 46
      q2 == IF hasFrac /\ At(s, q + 1) \in Digit THEN DigitRun(s, q + 1, 10) ELSE q
      fracBad == hasFrac /\ At(s, q + 1) \notin Digit
      hasExp == At(s, q2) \in {69, 101}
      es == IF hasExp /\ IsSign(At(s, q2 + 1)) THEN q2 + 2 ELSE q2 + 1
      expBad == hasExp /\ At(s, es) \notin Digit
      q3 == IF hasExp THEN DigitRun(s, es, 10) ELSE q2
  IN
  IF fracBad \/ expBad THEN Bad
  ELSE IF ~hasFrac /\ ~hasExp
  THEN LET v == IntVal(neg, DigitVals(s, p, q, <<>>), 10) IN IF InI128(v) THEN Good(q, v) ELSE Bad
  ELSE Good(q3, DecVal(neg, DigitVals(s, p, q, <<>>),
                        IF hasFrac THEN DigitVals(s, q + 1, q2, <<>>) ELSE <<>>,
                        hasExp /\ At(s, q2 + 1) = 45,
                        IF hasExp THEN DigitVals(s, es, q3, <<>>) ELSE <<>>))

IsNumStart(s, p) == At(s, p) \in Digit \/ (IsSign(At(s, p)) /\ At(s, p + 1) \in Digit)
NumberTok(s, p) ==
  LET neg == At(s, p) = 45
      q == IF IsSign(At(s, p)) THEN p + 1 ELSE p
      x == At(s, q + 1)
  IN IF At(s, q) = 48 /\ x \in {120, 88} THEN PrefixedTok(s, q + 2, neg, 16)       \* 0x (0X: deliberate extension)
     ELSE IF At(s, q) = 48 /\ x \in {111, 79} THEN PrefixedTok(s, q + 2, neg, 8)   \* 0o
     ELSE IF At(s, q) = 48 /\ x \in {98, 66} THEN PrefixedTok(s, q + 2, neg, 2)    \* 0b
     ELSE DecimalTok(s, q, neg)

KwTrue == <<35,116,114,117,101>>
KwFalse == <<35,102,97,108,115,101>>
KwNull == <<35,110,117,108,108>>
KwNan == <<35,110,97,110>>
KwInf == <<35,105,110,102>>
KwNegInf == <<35,45,105,110,102>>
SpecialFloat(c, n) == [t |-> "f", c |-> c, n |-> n, d |-> <<>>, e |-> 0]
KeywordTok(s, p) ==
  IF StartsWith(s, p, KwTrue) THEN Good(p + 5, [t |-> "b", b |-> 1])
  ELSE IF StartsWith(s, p, KwFalse) THEN Good(p + 6, [t |-> "b", b |-> 0])
  ELSE IF StartsWith(s, p, KwNull) THEN Good(p + 5, [t |-> "z"])
  ELSE IF StartsWith(s, p, KwNan) THEN Good(p + 4, SpecialFloat("nan", 0))
  ELSE IF StartsWith(s, p, KwInf) THEN Good(p + 4, SpecialFloat("inf", 0))
  ELSE IF StartsWith(s, p, KwNegInf) THEN Good(p + 5, SpecialFloat("inf", 1))
  ELSE Bad

(* ---- values, type annotations, entries ---------------------------------- *)
StrVal(v) == [t |-> "s", s |-> v]
ValueTok(s, p) ==
  IF At(s, p) = 35 /\ ~IsRawStart(s, p) THEN KeywordTok(s, p)
  ELSE IF IsNumStart(s, p) THEN NumberTok(s, p)
  ELSE LET t == StringTok(s, p) IN IF t.ok THEN Good(t.end, StrVal(t.v)) ELSE Bad

(* '(' node-space* string node-space* ')'; v = [ty, st, en] where st..en-1 is the name *)
TypeTok(s, p) ==
  LET a == NodeSpaceEnd(s, p + 1) IN
  IF a = 0 THEN Bad
  ELSE LET t == StringTok(s, a) IN
       IF ~t.ok THEN Bad
       ELSE LET b == NodeSpaceEnd(s, t.end) IN
            IF b = 0 \/ At(s, b) # 41 THEN Bad ELSE Good(b + 1, [ty |-> t.v, st |-> a, en |-> t.end])

NoTy == [y |-> <<>>, yp |-> <<>>]
(* a value with its optional type annotation *)
TypedTok(s, p) ==
  IF At(s, p) = 40
  THEN LET t == TypeTok(s, p) IN
       IF ~t.ok THEN Bad
       ELSE LET a == NodeSpaceEnd(s, t.end) IN
            IF a = 0 THEN Bad
            ELSE LET v == ValueTok(s, a) IN
                 IF v.ok THEN Good(v.end, [y |-> <<t.v.ty>>, yp |-> <<<<t.v.st, t.v.en>>>>, v |-> v.v, vp |-> a]) ELSE Bad
  ELSE LET v == ValueTok(s, p) IN
       IF v.ok THEN Good(v.end, [y |-> <<>>, yp |-> <<>>, v |-> v.v, vp |-> p]) ELSE Bad

(* argument or property at p; v = [k, y, v, st, en, kp, yp, vp]; *)
(* vp is where the value itself starts                                     *)
EntryTok(s, p) ==
  LET key == IF At(s, p) = 40 \/ IsNumStart(s, p) THEN Bad ELSE StringTok(s, p) IN
  IF ~key.ok
  THEN LET a == TypedTok(s, p) IN
       IF a.ok THEN Good(a.end, [k |-> <<>>, kp |-> <<>>, y |-> a.v.y, yp |-> a.v.yp, v |-> a.v.v, vp |-> a.v.vp, st |-> p, en |-> a.end]) ELSE Bad
  ELSE LET q == NodeSpaceEnd(s, key.end) IN
       IF q = 0 THEN Bad
       ELSE IF At(s, q) # 61
       THEN Good(key.end, [k |-> <<>>, kp |-> <<>>, y |-> <<>>, yp |-> <<>>, v |-> StrVal(key.v), vp |-> p, st |-> p, en |-> key.end])
       ELSE LET r == NodeSpaceEnd(s, q + 1) IN
            IF r = 0 THEN Bad
            ELSE LET a == TypedTok(s, r) IN
                 IF a.ok
                 THEN Good(a.end, [k |-> <<key.v>>, kp |-> <<<<p, key.end>>>>, y |-> a.v.y, yp |-> a.v.yp, v |-> a.v.v, vp |-> a.v.vp, st |-> p, en |-> a.end])
                 ELSE Bad
=============================================================================
