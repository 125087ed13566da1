------------------------------ MODULE Describe ------------------------------
(* How a reported advisory is shown (C23).  Texts of advisories are sequences  *)
(* of characters, so that a cut can never fall inside one.                     *)
EXTENDS Util

Spaces == {" ", "{9}", "{a}", "{3000}"}

(* the beginning of a text: whole words where possible, fewer than `limit`     *)
(* characters followed by an ellipsis                                          *)
CutAt(chars, limit) ==
  LET gaps == {i \in 1..limit : chars[i] \in Spaces}
  IN IF gaps = {} THEN limit ELSE MaxOf(gaps) - 1
Beginning(chars, limit) ==
  IF Len(chars) < limit THEN chars
  ELSE SubSeq(chars, 1, CutAt(chars, limit)) \o <<".", ".", ".">>

Spelled(chars) == FoldL(LAMBDA acc, c : acc \o c, "", chars)
LinkFor(id) == IF StartsWith(id, "GHSA") THEN " (https://github.com/advisories/" \o id \o ")" ELSE ""
(* the description of advisory `id` with the given summary and details *)
Description(id, summary, chars, limit) ==
  (IF summary # "" THEN summary
   ELSE IF chars # <<>> THEN Spelled(Beginning(chars, limit))
   ELSE "(no details available)") \o LinkFor(id)
=============================================================================
