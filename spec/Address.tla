------------------------------ MODULE Address -------------------------------
(* An address is a name and a device. Applications file what belongs to it   *)
(* under its text, so different addresses must have different texts.         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Letters,  \* letters of names, among them a digit and the separator
          MaxName,  \* letters of a name
          Devices   \* as sequences of digits

VARIABLES name, dev
vars == <<name, dev>>
Init == name = <<>> /\ dev \in Devices
Next == Len(name) < MaxName /\ \E l \in Letters : name' = Append(name, l) /\ UNCHANGED dev
Spec == Init /\ [][Next]_vars

\* Small ones, and those at the ends of the ranges of bytes and words.
TheDevices == {<<"0">>, <<"1">>, <<"2">>, <<"1", "0">>, <<"1", "1">>, <<"1", "2">>, <<"2", "1">>, <<"1", "1", "1">>, <<"1", "1", "2">>,
               <<"1", "2", "1">>, <<"2", "1", "1">>, <<"1", "1", "1", "1">>, <<"2", "5", "6">>, <<"2", "5", "7">>,
               <<"6", "5", "5", "3", "7">>, <<"2", "1", "4", "7", "4", "8", "3", "6", "4", "9">>,
               <<"4", "2", "9", "4", "9", "6", "7", "2", "9", "5">>}

Text(n, d) == n \o <<":">> \o d
\* The last separator of a text ends the name, so the address can be read from it.
LastSep(t) == CHOOSE i \in DOMAIN t : t[i] = ":" /\ \A j \in DOMAIN t : j > i => t[j] # ":"
Unique == LET t == Text(name, dev) IN
  /\ SubSeq(t, 1, LastSep(t) - 1) = name
  /\ SubSeq(t, LastSep(t) + 1, Len(t)) = dev

Emit == PrintT("@@" \o ToJson([name |-> name, dev |-> dev]))
=============================================================================
