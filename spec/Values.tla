------------------------------- MODULE Values -------------------------------
(* The single values that are stored and sent: made from parts, they show    *)
(* these parts and no others, and what is saved and loaded is the same value.*)
(* Parts are names; the replay knows what they stand for: 0, 1, 2^31, 2^32-1 *)
(* for numbers, the edges of 32 and 64 bits for times.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxReload

Nums == 0..3
Maybe == -1..3                  \* -1: none
Times == 0..11
Lens == {1, 15, 16, 17, 300}    \* of ciphertexts
Names == 0..5                   \* of users and groups

Parts == [prekey |-> <<Nums>>, signed |-> <<Nums, Times>>, bundle |-> <<Nums, Nums, Maybe, Nums>>,
          msg |-> <<Nums, Nums, Lens>>, premsg |-> <<Nums, Maybe, Nums>>, gmsg |-> <<Nums, Nums, Lens>>, dist |-> <<Nums, Nums>>,
          addr |-> <<Names, Nums>>, sender |-> <<Names, Names, Nums>>, pair |-> <<0..2>>, number |-> <<Maybe>>]
\* what can be saved and loaded
Saved == {"prekey", "signed", "msg", "premsg", "gmsg", "dist"}

RECURSIVE Choices(_)
Choices(ps) == IF ps = <<>> THEN {<<>>} ELSE {<<x>> \o c : x \in Head(ps), c \in Choices(Tail(ps))}

VARIABLES kind, made, value, reloads
vars == <<kind, made, value, reloads>>

Init == /\ kind \in DOMAIN Parts
        /\ made \in Choices(Parts[kind])
        /\ value = made /\ reloads = 0
Reload == kind \in Saved /\ reloads < MaxReload /\ reloads' = reloads + 1 /\ value' = value /\ UNCHANGED <<kind, made>>
Next == Reload
Spec == Init /\ [][Next]_vars

Same == value = made
Emit == PrintT("@@" \o ToJson([kind |-> kind, made |-> made, value |-> value, reloads |-> reloads]))
=============================================================================
