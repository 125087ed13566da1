----------------------------- MODULE MCDescribe -----------------------------
(* Texts grow character by character; every beginning shown keeps what the     *)
(* reader relies on.  Gaps lists, per text, word lengths for the replay.       *)
EXTENDS Describe, Json
CONSTANTS Limit, MaxLen, WordLens, MaxWords
VARIABLES text, words
vars == <<text, words>>
Init == text = <<>> /\ words = <<>>
Type == Len(text) < MaxLen /\ words = <<>> /\ \E c \in {"a", " "} : text' = Append(text, c) /\ UNCHANGED words
AddWord == text = <<>> /\ Len(words) < MaxWords /\ \E l \in WordLens : words' = Append(words, l) /\ UNCHANGED text
Next == Type \/ AddWord
Spec == Init /\ [][Next]_vars

Shown == Beginning(text, Limit)
Short == Len(text) < Limit => Shown = text
Bounded == Len(Shown) <= Limit + 3
IsPrefix == Len(text) >= Limit => LET k == Len(Shown) - 3 IN k <= Limit /\ SubSeq(Shown, 1, k) = SubSeq(text, 1, k)
(* words are only broken when the first one is too long *)
WholeWords == Len(text) >= Limit =>
  LET k == Len(Shown) - 3 IN (k < Len(text) /\ text[k + 1] \in Spaces) \/ \A i \in 1..k : text[i] \notin Spaces
(* nothing more could have been shown without breaking a word *)
Longest == Len(text) >= Limit =>
  LET k == Len(Shown) - 3 IN \A i \in (k + 2)..Limit : i \in DOMAIN text => text[i] \notin Spaces
Emit == words = <<>> \/ PrintT(<<"GEN", ToJson([words |-> words])>>)
=============================================================================
