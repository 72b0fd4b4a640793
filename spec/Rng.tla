-------------------------------- MODULE Rng --------------------------------
(* A small deterministic random number generator (Wichmann-Hill) in the     *)
(* state, so that a random behaviour is a function of its seed number and   *)
(* TLC explores many of them in parallel with ordinary breadth-first search.*)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

RngAdv(s) == <<(171 * s[1]) % 30269, (172 * s[2]) % 30307, (170 * s[3]) % 30323>>

RECURSIVE RngAdvN(_, _)
RngAdvN(s, n) == IF n = 0 THEN s ELSE RngAdvN(RngAdv(s), n - 1)

RngInit(id, seed) ==
  RngAdvN(<<1 + ((id * 7919 + (seed % 9973) * 131) % 30268),
            1 + ((id * 104 + (seed % 9967) * 7907 + 17) % 30306),
            1 + ((id * 31 + (seed % 9949) * 1009 + 5) % 30322)>>, 5)

\* The states after 1..n steps.
RECURSIVE RngSeq(_, _)
RngSeq(s, n) == IF n = 0 THEN <<>> ELSE LET t == RngAdv(s) IN <<t>> \o RngSeq(t, n - 1)

\* A number in 0..n-1.
RngVal(s, n) == ((s[1] + s[2]) * 7 + s[3] * 11 + s[1] \div 7) % n

\* The (v mod size)-th element of a set of comparable values, of a sequence.
PickNum(S, v) == SetToSortSeq(S, <)[1 + (v % Cardinality(S))]
PickSeq(q, v) == q[1 + (v % Len(q))]

\* Weighted choice from a sequence of <<value, weight>>.
RECURSIVE WSum(_)
WSum(w) == IF w = <<>> THEN 0 ELSE w[1][2] + WSum(Tail(w))
RECURSIVE WPick(_, _)
WPick(w, v) == IF v < w[1][2] \/ Len(w) = 1 THEN w[1][1] ELSE WPick(Tail(w), v - w[1][2])
=============================================================================
