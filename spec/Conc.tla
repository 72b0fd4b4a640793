-------------------------------- MODULE Conc --------------------------------
(* Several conversations in one process. Each is a sequence of calls. A call *)
(* reads what all conversations share (identity key pairs, serializers,      *)
(* addresses, the logger) and what is its own (its records), and then writes *)
(* what is its own. The application runs the calls in rounds: those of one   *)
(* round at the same time, in any interleaving of their reads and writes.    *)
(* Whatever the interleaving, each conversation goes as it would alone.      *)
(* The variant with Scratch (not checked as a property: TLC shows that Alone *)
(* fails for it) has calls that keep something shared between their parts.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS N, Kinds, MaxPat, Calls, Scratch, Logs

C == 1..N
KindSeq == Kinds                                  \* a sequence: conversations are taken in its order
Pats == {p \in UNION {[1..n -> SUBSET C \ {{}}] : n \in 1..MaxPat} : UNION {p[i] : i \in DOMAIN p} = C}
Chosen == {k \in [C -> 1..Len(KindSeq)] : \A i \in 1..(N - 1) : k[i] <= k[i + 1]}

Shared == [ident |-> "ident", ser |-> "ser", log |-> "log", scratch |-> 0]

VARIABLES kinds,     \* what the conversations are
          pat,       \* who has a call in each round, repeated
          log,       \* the logger of the application, or none set up
          share,     \* do they share identities and serializers?
          round, pc, loc, own, sh

vars == <<kinds, pat, log, share, round, pc, loc, own, sh>>

In(r) == pat[((r - 1) % Len(pat)) + 1]
Live(r) == {c \in In(r) : Len(own[c]) < Calls}

Init == /\ kinds \in Chosen
        /\ pat \in Pats
        /\ log \in Logs
        /\ share \in BOOLEAN
        /\ round = 0
        /\ pc = [c \in C |-> "idle"]
        /\ loc = [c \in C |-> <<>>]
        /\ own = [c \in C |-> <<>>]
        /\ sh = Shared

\* the application starts the calls of the next round
Start == /\ \A c \in C : pc[c] = "idle"
         /\ \E c \in C : Len(own[c]) < Calls
         /\ round' = round + 1
         /\ pc' = [c \in C |-> IF c \in Live(round + 1) THEN "called" ELSE "idle"]
         /\ UNCHANGED <<kinds, pat, log, share, loc, own, sh>>

Read(c) == /\ pc[c] = "called"
           /\ pc' = [pc EXCEPT ![c] = "read"]
           /\ sh' = IF Scratch THEN [sh EXCEPT !.scratch = c] ELSE sh
           /\ loc' = [loc EXCEPT ![c] = <<sh.ident, sh.ser, sh.log>>]
           /\ UNCHANGED <<kinds, pat, log, share, round, own>>

\* the result depends on what the call read and on what the conversation did before
Result(k, n, l, s) == <<k, n, l, s>>

Write(c) == /\ pc[c] = "read"
            /\ pc' = [pc EXCEPT ![c] = "idle"]
            /\ own' = [own EXCEPT ![c] = Append(@, Result(kinds[c], Len(@) + 1, loc[c], IF Scratch THEN sh.scratch ELSE c))]
            /\ UNCHANGED <<kinds, pat, log, share, round, loc, sh>>

Next == Start \/ \E c \in C : Read(c) \/ Write(c)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
AllKinds == <<"session", "group", "prov", "safety", "prim", "kex">>

\* what a conversation has after its first n calls when it runs alone
Solo(c, n) == [i \in 1..n |-> Result(kinds[c], i, <<Shared.ident, Shared.ser, Shared.log>>, c)]

Alone == \A c \in C : own[c] = Solo(c, Len(own[c]))
Constant == sh = Shared
\* no call is left behind: rounds go on until all have made theirs
Fair == round > Calls * Len(pat) => \A c \in C : Len(own[c]) = Calls \/ pc[c] # "idle"

Case == [kinds |-> [c \in C |-> KindSeq[kinds[c]]], pat |-> pat, log |-> log, share |-> share]
Emit == round = 0 => PrintT("@@" \o ToJson(Case))
============================================================================
