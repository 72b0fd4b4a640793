--------------------------------- MODULE Kex ---------------------------------
(* The simultaneous key exchange: both parties generate base and ratchet     *)
(* keys, keep them with their session while they wait, exchange the public   *)
(* halves, and each derives the session alone. Who is the initiator of the   *)
(* X3DH agreement is decided by comparing the two base keys.                 *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxReload       \* how often a party saves and reloads while it waits

P == {"A", "B"}
Other(p) == IF p = "A" THEN "B" ELSE "A"

----------------------------------------------------------------------------
(* Base keys are compared as byte strings. Bytes are abstracted to four      *)
(* values, of which 2 and 3 have their top bit set.                          *)

Bytes == 0..3
RECURSIVE Less(_, _)
Less(x, y) == IF x = <<>> THEN FALSE
              ELSE x[1] < y[1] \/ (x[1] = y[1] /\ Less(Tail(x), Tail(y)))

ASSUME \A x, y \in [1..3 -> Bytes] : x # y => (Less(x, y) <=> ~Less(y, x))
ASSUME \A x, y, z \in [1..3 -> Bytes] : Less(x, y) /\ Less(y, z) => Less(x, z)

(* How two keys are related, as far as a comparison could notice: the number *)
(* of equal leading bytes, the order and the signs of the first different    *)
(* bytes, and whether the order from the other end is the same. With 31      *)
(* equal bytes the keys differ in the last bit only, which X25519 ignores.   *)
Rels == [pre : 0..4, aless : BOOLEAN, lo : {0, 1}, le : BOOLEAN] \cup
        [pre : {31}, aless : BOOLEAN, lo : {1}, le : {TRUE}]
\* lo = 0: both first different bytes without top bit; 1: one of them with.
HighRels == [pre : 0..3, aless : BOOLEAN, lo : {2}, le : BOOLEAN]   \* 2: both with
AllRels == Rels \cup HighRels

KeyLen == 6
Pair(r) ==
  LET n == IF r.pre > 4 THEN KeyLen - 1 ELSE r.pre
      small == [i \in 1..KeyLen |-> IF i <= n THEN 1 ELSE IF i = n + 1 THEN r.lo ELSE IF i = KeyLen THEN 1 ELSE 2]
      big == [i \in 1..KeyLen |-> IF i <= n THEN 1 ELSE IF i = n + 1 THEN r.lo + 1
                                  ELSE IF i = KeyLen THEN (IF r.le THEN 2 ELSE 0) ELSE 2]
  IN IF r.aless THEN [p \in P |-> IF p = "A" THEN small ELSE big]
               ELSE [p \in P |-> IF p = "A" THEN big ELSE small]
ASSUME \A r \in AllRels : LET k == Pair(r) IN Less(k["A"], k["B"]) = r.aless /\ k["A"] # k["B"]

----------------------------------------------------------------------------
VARIABLES rel,      \* relation of the two base keys
          one,      \* two devices of one user, with the same identity key?
          st,       \* per party: phase, base key as kept, number of reloads
          res,      \* what each party derived
          hist
vars == <<rel, one, st, res, hist>>

(* Agreements as terms: DH(x, y) is the set of the two key names. *)
I(p) == IF one THEN "I" ELSE "I" \o p
B(p) == "B" \o p
DH(x, y) == {x, y}

\* X3DH between initiator i and responder r, whose base key serves as signed prekey.
X3DH(i, r) == <<DH(I(i), B(r)), DH(B(i), I(r)), DH(B(i), B(r))>>

NoKey == <<>>
Init == /\ rel \in AllRels
        /\ one \in BOOLEAN
        /\ st = [p \in P |-> [ph |-> "none", key |-> NoKey, n |-> 0]]
        /\ res = [p \in P |-> <<>>]
        /\ hist = <<>>

Do(op, p) == hist' = Append(hist, [op |-> op, p |-> p])

\* p generates its keys and keeps them with its session.
Begin(p) == /\ st[p].ph = "none"
            /\ st' = [st EXCEPT ![p].ph = "waiting", ![p].key = Pair(rel)[p]]
            /\ Do("begin", p)
            /\ UNCHANGED <<rel, one, res>>

\* p saves its session and loads it again.
Reload(p) == /\ st[p].ph # "none"
             /\ st[p].n < MaxReload
             /\ st' = [st EXCEPT ![p].n = @ + 1]
             /\ Do("reload", p)
             /\ UNCHANGED <<rel, one, res>>

\* p has the other's keys and derives the session from them and from what it kept.
Initiates(p) == Less(st[p].key, Pair(rel)[Other(p)])
Finish(p) == /\ st[p].ph = "waiting"
             /\ st[Other(p)].ph # "none"
             /\ st' = [st EXCEPT ![p].ph = "done"]
             /\ res' = [res EXCEPT ![p] = IF Initiates(p)
                           THEN <<DH(I(p), B(Other(p))), DH(B(p), I(Other(p))), DH(B(p), B(Other(p)))>>
                           ELSE <<DH(I(Other(p)), B(p)), DH(B(Other(p)), I(p)), DH(B(Other(p)), B(p))>>]
             /\ Do("finish", p)
             /\ UNCHANGED <<rel, one>>

Next == \E p \in P : Begin(p) \/ Reload(p) \/ Finish(p)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Done == \A p \in P : st[p].ph = "done"

\* Both derive the same, and it is the agreement of one of the two role assignments.
Agree == Done => /\ res["A"] = res["B"]
                 /\ res["A"] \in {X3DH("A", "B"), X3DH("B", "A")}
\* Exactly one of them is the initiator.
OneInitiator == (\A p \in P : st[p].ph # "none") => Cardinality({p \in P : Initiates(p)}) = 1
\* What was kept is what was generated.
Kept == \A p \in P : st[p].ph # "none" => st[p].key = Pair(rel)[p]

\* The behaviour, and the agreements for either initiator.
Emit == Done => PrintT("@@" \o ToJson([rel |-> rel, one |-> one, ops |-> hist, init |-> CHOOSE p \in P : Initiates(p),
                                       x3dh |-> [A |-> X3DH("A", "B"), B |-> X3DH("B", "A")]]))
=============================================================================
