------------------------------ MODULE PromText ------------------------------
(***************************************************************************)
(* The Prometheus text exposition format, on character codes: names,       *)
(* label sets with escapes, numbers, comments, samples and the grouping of *)
(* a publication's lines into families.                                    *)
(***************************************************************************)
EXTENDS Dyadic, FiniteSets

Letter == (65..90) \cup (97..122)
Digit == 48..57
NameStart == Letter \cup {95, 58}
NameChar == NameStart \cup Digit
LabelStart == Letter \cup {95}
LabelChar == LabelStart \cup Digit
Space == 32  Quote == 34  Hash == 35  Comma == 44  Minus == 45  Dot == 46
Equals == 61  Backslash == 92  Open == 123  Close == 125  Newline == 10  LowerN == 110

CharAt(s, i) == IF i <= Len(s) THEN s[i] ELSE -1
From(s, i) == SubSeq(s, i, Len(s))
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
\* first position from i on whose character is not in C
RECURSIVE Skip(_, _, _)
Skip(s, i, C) == IF i <= Len(s) /\ s[i] \in C THEN Skip(s, i + 1, C) ELSE i

IsName(s) == s # <<>> /\ s[1] \in NameStart /\ \A i \in 1..Len(s) : s[i] \in NameChar
IsLabel(s) == s # <<>> /\ s[1] \in LabelStart /\ \A i \in 1..Len(s) : s[i] \in LabelChar

-----------------------------------------------------------------------------
Bad == [ok |-> FALSE]
\* the text of a quoted string whose first character is at i
RECURSIVE Unquote(_, _, _)
Unquote(s, i, acc) ==
    IF i > Len(s) THEN Bad
    ELSE IF s[i] = Quote THEN [ok |-> TRUE, text |-> acc, next |-> i + 1]
    ELSE IF s[i] # Backslash THEN Unquote(s, i + 1, Append(acc, s[i]))
    ELSE IF CharAt(s, i + 1) = Backslash THEN Unquote(s, i + 2, Append(acc, Backslash))
    ELSE IF CharAt(s, i + 1) = Quote THEN Unquote(s, i + 2, Append(acc, Quote))
    ELSE IF CharAt(s, i + 1) = LowerN THEN Unquote(s, i + 2, Append(acc, Newline))
    ELSE Bad

\* label pairs up to the closing brace
RECURSIVE Labels(_, _, _)
Labels(s, i, acc) ==
    IF CharAt(s, i) = Close THEN [ok |-> TRUE, list |-> acc, next |-> i + 1]
    ELSE LET e == Skip(s, i, LabelChar) IN
         IF e = i \/ CharAt(s, i) \notin LabelStart \/ CharAt(s, e) # Equals \/ CharAt(s, e + 1) # Quote THEN Bad
         ELSE LET v == Unquote(s, e + 2, <<>>) IN
              IF ~v.ok THEN Bad
              ELSE LET more == Append(acc, <<SubSeq(s, i, e - 1), v.text>>) IN
                   IF CharAt(s, v.next) = Comma THEN Labels(s, v.next + 1, more)
                   ELSE IF CharAt(s, v.next) = Close THEN [ok |-> TRUE, list |-> more, next |-> v.next + 1]
                   ELSE Bad

\* -?digits[.digits]: the digits as one number and how many of them are decimals
Number(s) ==
    LET neg == s # <<>> /\ s[1] = Minus
        i == IF neg THEN 2 ELSE 1
        e == Skip(s, i, Digit)
        f == IF CharAt(s, e) = Dot THEN Skip(s, e + 1, Digit) ELSE e
        digits == SubSeq(s, i, e - 1) \o SubSeq(s, e + 1, f - 1)
        mag == FoldLeft(LAMBDA a, c : Add(MulInt(a, 10), FromInt(c - 48)), Zero, digits)
    IN  IF e = i \/ f <= Len(s) \/ CharAt(s, f - 1) = Dot THEN Bad
        ELSE [ok |-> TRUE, digits |-> IF neg THEN Neg(mag) ELSE mag, decimals |-> IF f = e THEN 0 ELSE f - e - 1]

RECURSIVE Pow10(_)
Pow10(k) == IF k = 0 THEN FromInt(1) ELSE MulInt(Pow10(k - 1), 10)

\* name[{labels}] value
Sample(s) ==
    LET e == Skip(s, 1, NameChar)
        labels == IF CharAt(s, e) = Open THEN Labels(s, e + 1, <<>>) ELSE [ok |-> TRUE, list |-> <<>>, next |-> e]
    IN  IF ~IsName(SubSeq(s, 1, e - 1)) \/ ~labels.ok THEN Bad
        ELSE IF CharAt(s, labels.next) # Space THEN Bad
        ELSE LET v == Number(From(s, labels.next + 1))
                 names == {labels.list[i][1] : i \in DOMAIN labels.list}
             IN  IF ~v.ok \/ Cardinality(names) # Len(labels.list) THEN Bad
                 ELSE [ok |-> TRUE, name |-> SubSeq(s, 1, e - 1),
                       labels |-> {labels.list[i] : i \in DOMAIN labels.list}, value |-> v]

\* "# TYPE name kind" and "# HELP name text"
TypeWord == <<35, 32, 84, 89, 80, 69, 32>>
HelpWord == <<35, 32, 72, 69, 76, 80, 32>>
Kinds == {<<117, 110, 116, 121, 112, 101, 100>>,                  \* untyped
          <<99, 111, 117, 110, 116, 101, 114>>,                   \* counter
          <<103, 97, 117, 103, 101>>,                             \* gauge
          <<115, 117, 109, 109, 97, 114, 121>>,                   \* summary
          <<104, 105, 115, 116, 111, 103, 114, 97, 109>>}         \* histogram
RECURSIVE HelpText(_, _)
HelpText(s, i) == IF i > Len(s) THEN TRUE
                  ELSE IF s[i] # Backslash THEN HelpText(s, i + 1)
                  ELSE CharAt(s, i + 1) \in {Backslash, LowerN} /\ HelpText(s, i + 2)
Comment(s) ==
    LET word == IF StartsWith(s, TypeWord) THEN "type" ELSE IF StartsWith(s, HelpWord) THEN "help" ELSE "other"
        e == Skip(s, 8, NameChar)
        name == SubSeq(s, 8, e - 1)
        rest == From(s, e + 1)
    IN  IF word = "other" \/ ~IsName(name) \/ CharAt(s, e) # Space THEN Bad
        ELSE IF word = "type" /\ rest \notin Kinds THEN Bad
        ELSE IF word = "help" /\ ~HelpText(rest, 1) THEN Bad
        ELSE [ok |-> TRUE, word |-> word, name |-> name, rest |-> rest]

\* the families of a publication: headers followed by their samples
Endings == {<<>>, <<95, 99, 111, 117, 110, 116>>, <<95, 115, 117, 109>>, <<95, 109, 101, 97, 110>>,
             <<95, 98, 117, 99, 107, 101, 116>>, <<58, 114, 97, 116, 101, 115>>}     \* _count _sum _mean _bucket :rates
Belongs(name, family) == StartsWith(name, family) /\ From(name, Len(family) + 1) \in Endings
Started(name) == [name |-> name, types |-> <<>>, helps |-> 0, samples |-> <<>>]
AddLine(acc, s) ==
    IF ~acc.ok THEN acc
    ELSE LET n == Len(acc.fams) IN
    IF CharAt(s, 1) = Hash
    THEN LET c == Comment(s) IN
         IF ~c.ok THEN Bad
         ELSE LET open == n > 0 /\ acc.fams[n].name = c.name /\ acc.fams[n].samples = <<>>
                  fams == IF open THEN acc.fams ELSE Append(acc.fams, Started(c.name))
                  f == fams[Len(fams)]
              IN  [ok |-> TRUE,
                   fams |-> [fams EXCEPT ![Len(fams)] =
                        IF c.word = "type" THEN [f EXCEPT !.types = Append(@, c.rest)] ELSE [f EXCEPT !.helps = @ + 1]]]
    ELSE LET x == Sample(s) IN
         IF ~x.ok \/ n = 0 THEN Bad
         ELSE IF ~Belongs(x.name, acc.fams[n].name) THEN Bad
         ELSE [ok |-> TRUE, fams |-> [acc.fams EXCEPT ![n].samples = Append(@, x)]]
Families(lines) == FoldLeft(AddLine, [ok |-> TRUE, fams |-> <<>>], lines)

\* every family has one TYPE header and at most one HELP, is not empty and is not split
WellFormed(lines) ==
    LET r == Families(lines) IN
    /\ r.ok
    /\ \A i \in DOMAIN r.fams :
          Len(r.fams[i].types) = 1 /\ r.fams[i].helps <= 1 /\ r.fams[i].samples # <<>>
    /\ Cardinality({r.fams[i].name : i \in DOMAIN r.fams}) = Len(r.fams)

-----------------------------------------------------------------------------
\* writing: what a publisher does with arbitrary text
Clean(s) == [i \in DOMAIN s |-> IF s[i] \in Letter \cup Digit THEN s[i] ELSE 95]
Escaped(s) == FoldLeft(LAMBDA a, c : a \o (CASE c = Quote -> <<Backslash, Quote>>
                                             [] c = Backslash -> <<Backslash, Backslash>>
                                             [] c = Newline -> <<Backslash, LowerN>>
                                             [] OTHER -> <<c>>), <<>>, s)
LabelName(s) == (IF s = <<>> \/ s[1] \in Digit THEN <<95>> ELSE <<>>) \o Clean(s)
RECURSIVE Joined(_)
Joined(comps) == IF Len(comps) = 1 THEN Clean(comps[1]) ELSE Clean(comps[1]) \o <<58>> \o Joined(Tail(comps))
\* the name of a path, a non-empty sequence of non-empty components
MetricName(comps) == (IF comps[1][1] \in Digit THEN <<95>> ELSE <<>>) \o Joined(comps)
=============================================================================
