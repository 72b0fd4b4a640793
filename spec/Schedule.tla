------------------------------ MODULE Schedule ------------------------------
(* The key schedules as values: agreements, root keys, chain keys, message   *)
(* keys, and the chain and message keys of groups. A program makes values    *)
(* from values, in any order and as often as it likes; every value is what   *)
(* the schedule says, and stays so whatever is made from it later.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxOps, Hows, Seeds

(* Key pairs: identity and base key of the initiator, identity, signed and   *)
(* one-time prekey of the responder, two ratchet keys.                       *)
DH(x, y) == <<x, y>>
Agreement(otk) == <<DH("IA", "SB"), DH("BA", "IB"), DH("BA", "SB")>> \o (IF otk THEN <<DH("BA", "OB")>> ELSE <<>>)

(* A root key and the first key of its chain are given by the agreements on  *)
(* the way to it; a chain key also by the number of steps from there, and a  *)
(* message key by its chain key. x is the number it bears.                   *)
Obj(t, r, s, i, x) == [t |-> t, r |-> r, s |-> s, i |-> i, x |-> x]

VARIABLES heap, prog
vars == <<heap, prog>>

Init == heap = <<>> /\ prog = <<>>

Do(op, o, p, how, new) ==
    /\ heap' = heap \o new
    /\ prog' = Append(prog, [op |-> op, o |-> o, p |-> p, how |-> how])

Is(o, t) == o \in DOMAIN heap /\ heap[o].t = t
Made(op) == \E k \in DOMAIN prog : prog[k].op = op

\* one of the two roles agrees; what it is given arrives all at once or field by field
Agree(role, otk, how) ==
    LET r == <<Agreement(otk)>> IN
    /\ Len(prog) < 2
    /\ Do(role, 0, IF otk THEN 1 ELSE 0, how, <<Obj("root", r, "", 0, 0), Obj("chain", r, "", 0, 0)>>)
\* a ratchet step: x is our key, y is theirs
Step(o, x, y) ==
    LET r == Append(heap[o].r, <<DH(x, y)>>) IN
    /\ Is(o, "root")
    /\ Do("step", o, 0, x \o y, <<Obj("root", r, "", 0, 0), Obj("chain", r, "", 0, 0)>>)
\* groups: a chain begins at any number
Begin(s, n) == Len(prog) < 2 /\ Do("begin", 0, n, s, <<Obj("gchain", <<>>, s, 0, n)>>)

NextKey(o) == /\ (Is(o, "chain") \/ Is(o, "gchain"))
              /\ Do("next", o, 0, "", <<[heap[o] EXCEPT !.i = @ + 1, !.x = @ + 1]>>)
Message(o) == /\ (Is(o, "chain") \/ Is(o, "gchain"))
              /\ Do("message", o, 0, "", <<[heap[o] EXCEPT !.t = IF heap[o].t = "chain" THEN "mk" ELSE "gmk"]>>)
\* to the structure that is stored, and back
Copy(o) == /\ o \in DOMAIN heap
           /\ Do("copy", o, 0, "", <<heap[o]>>)
\* a chain key object gets another value: the only thing that changes
Set(o, p) == /\ Is(o, "chain") /\ Is(p, "chain") /\ o # p
             /\ heap' = [heap EXCEPT ![o] = [heap[p] EXCEPT !.x = @ + 3]]
             /\ prog' = Append(prog, [op |-> "set", o |-> o, p |-> p, how |-> ""])

Next ==
    /\ Len(prog) < MaxOps
    /\ \/ \E role \in {"sender", "receiver"}, otk \in BOOLEAN, how \in Hows : Agree(role, otk, how)
       \/ \E s \in Seeds, n \in {0, 7} : Begin(s, n)
       \/ \E o \in DOMAIN heap :
            \/ NextKey(o) \/ Message(o) \/ Copy(o)
            \/ \E xy \in {<<"R", "S">>, <<"S", "R">>} : Step(o, xy[1], xy[2])
            \/ \E p \in DOMAIN heap : Set(o, p)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* The two roles agree on the same exactly if they agree about the one-time prekey.
Roles == \A i, j \in DOMAIN prog : prog[i].op = "sender" /\ prog[j].op = "receiver" =>
            LET At(k) == CHOOSE h \in 1..4 : h = 2 * k - 1    \* agreements come first
            IN (\A k \in 1..2 : k <= Len(prog) => prog[k].op \in {"sender", "receiver"}) =>
               ((heap[At(i)].r = heap[At(j)].r) <=> (prog[i].p = prog[j].p))
\* Nothing but an assignment changes what exists.
Same(a, b) == Len(a) <= Len(b) /\ \A k \in DOMAIN a : a[k] = b[k]
Stays == [][Len(prog') > Len(prog) /\ prog'[Len(prog')].op # "set" => Same(heap, heap')]_vars
\* Numbers and steps go together, but for assignments.
Count == (~\E k \in DOMAIN prog : prog[k].op = "set") => \A k \in DOMAIN heap : heap[k].t \in {"chain", "mk"} => heap[k].i = heap[k].x

Emit == Len(prog) = MaxOps => PrintT("@@" \o ToJson([prog |-> prog, heap |-> heap]))
=============================================================================
