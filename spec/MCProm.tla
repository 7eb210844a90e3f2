------------------------------- MODULE MCProm -------------------------------
(***************************************************************************)
(* The text format checked on its own: whatever the text, what is written  *)
(* with escapes parses and reads back as it was, and without escapes some  *)
(* texts would not.                                                        *)
(***************************************************************************)
EXTENDS PromText, TLC

CONSTANTS MaxText, MaxLabels
VARIABLES labels     \* a set of <<key, value>>, values any text
vars == labels

Alphabet == {34, 92, 10, 97, 110, 125, 44, 57}     \* " \ newline a n } , 9
RECURSIVE Texts(_)
Texts(n) == IF n = 0 THEN {<<>>} ELSE LET shorter == Texts(n - 1) IN shorter \cup {Append(t, c) : t \in shorter, c \in Alphabet}
KeyOf(i) == LabelName(<<96 + i>>)

Line(name, list, value) ==
    LET RECURSIVE Go(_)
        Go(i) == IF i > Len(list) THEN <<>>
                 ELSE (IF i = 1 THEN <<>> ELSE <<Comma>>) \o list[i][1] \o <<Equals, Quote>> \o Escaped(list[i][2]) \o <<Quote>> \o Go(i + 1)
    IN  name \o <<Open>> \o Go(1) \o <<Close, Space>> \o value

Init == labels = <<>>
Next == /\ Len(labels) < MaxLabels
        /\ \E t \in Texts(MaxText) : labels' = Append(labels, <<KeyOf(Len(labels) + 1), t>>)

Name == <<97, 58, 98>>    \* a:b
Value == <<45, 49, 46, 53>>   \* -1.5
Written == Line(Name, labels, Value)
ReadsBack == LET s == Sample(Written) IN
             /\ s.ok /\ s.name = Name
             /\ s.labels = {labels[i] : i \in DOMAIN labels}
             /\ s.value = [ok |-> TRUE, digits |-> FromInt(0 - 15), decimals |-> 1]
OneLine == \A i \in DOMAIN Written : Written[i] # Newline
\* whatever the text, names made of it are names
NamesAreNames == \A i \in DOMAIN labels :
    LET t == labels[i][2] IN
    /\ IsLabel(LabelName(t))
    /\ t # <<>> => IsName(MetricName(<<t>>)) /\ IsName(MetricName(<<t, t>>))
\* escapes are needed: the bare text is never read back as more labels than it is, but may be lost
Bare(i) == Name \o <<Open>> \o labels[i][1] \o <<Equals, Quote>> \o labels[i][2] \o <<Quote, Close, Space>> \o Value
NeedsEscapes == \A i \in DOMAIN labels :
    LET t == labels[i][2]
        odd == {Quote, Backslash} \cap {t[k] : k \in DOMAIN t}
        s == Sample(Bare(i))
    IN  (odd = {}) => (s.ok /\ s.labels = {labels[i]})
Inv == ReadsBack /\ OneLine /\ NamesAreNames /\ NeedsEscapes
=============================================================================
