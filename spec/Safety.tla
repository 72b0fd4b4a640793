------------------------------- MODULE Safety -------------------------------
(* Safety numbers. Each fingerprint determines six groups of five digits:    *)
(* five bytes, as a number, modulo 100000. The number shows the groups of    *)
(* both fingerprints, the smaller half first, so that both parties see the   *)
(* same.                                                                     *)
EXTENDS Rng, TLC, Json

CONSTANTS First, Count, Seed     \* random pairs of fingerprints, besides the systematic ones

(* bytes (big endian) modulo 100000, digit by digit (TLC has 32-bit numbers) *)
RECURSIVE Horner(_, _)
Horner(v, b) == IF b = <<>> THEN v ELSE Horner((v * 256 + b[1]) % 100000, Tail(b))
Group(b) == Horner(0, b)

Groups(f) == [i \in 1..6 |-> Group(SubSeq(f, 5 * i - 4, 5 * i))]

RECURSIVE Smaller(_, _)
Smaller(x, y) == IF x = <<>> THEN FALSE
                 ELSE x[1] < y[1] \/ (x[1] = y[1] /\ Smaller(Tail(x), Tail(y)))

Number(local, remote) == LET l == Groups(local)  r == Groups(remote)
                         IN IF Smaller(l, r) THEN l \o r ELSE r \o l

\* Groups at the edges: zeros, the modulus, signs and carries of every byte.
Special == << <<0,0,0,0,0>>, <<0,0,0,0,1>>, <<0,0,0,0,127>>, <<0,0,0,0,128>>, <<0,0,0,1,0>>, <<0,0,0,39,15>>,
              <<0,0,1,134,159>>, <<0,0,1,134,160>>, <<0,0,1,134,161>>, <<0,0,255,255,255>>, <<0,128,0,0,0>>,
              <<0,255,255,255,255>>, <<1,0,0,0,0>>, <<127,255,255,255,255>>, <<128,0,0,0,0>>, <<255,255,255,255,255>>,
              <<0,200,1,134,160>>, <<255,0,0,0,1>> >>
ASSUME Group(<<0,0,1,134,160>>) = 0
ASSUME Group(<<0,0,0,39,15>>) = 9999
ASSUME Group(<<1,0,0,0,0>>) = 67296              \* 2^32 = 4294967296
ASSUME Group(<<255,255,255,255,255>>) = 27775    \* 2^40 - 1 = 1099511627775

RECURSIVE RandBytes(_, _)
RandBytes(s, n) == IF n = 0 THEN <<>> ELSE LET t == (RngAdv(s)) IN <<RngVal(t, 256)>> \o RandBytes(t, n - 1)

With(f, i, c) == [k \in 1..Len(f) |-> IF k \in (5 * i - 4)..(5 * i) THEN c[k - (5 * i - 5)] ELSE f[k]]

----------------------------------------------------------------------------
VARIABLES kind, x, local, remote, alt
vars == <<kind, x, local, remote, alt>>

Init == /\ kind = "none"
        /\ x \in {<<"pair", i, a, b>> : i \in 1..6, a \in 1..Len(Special), b \in 1..Len(Special)} \cup
                 {<<"rand", i, 0, 0>> : i \in First..(First + Count - 1)}
        /\ local = <<>> /\ remote = <<>> /\ alt = <<>>

\* Two fingerprints that differ in one group at most, at every position.
Pairs == LET i == x[2]  a == x[3]  b == x[4]
             f == (RandBytes(RngInit(a * 100 + b, Seed), 32))
         IN /\ local' = With(f, i, Special[a])
            /\ remote' = With(f, i, Special[b])
            /\ alt' = With(f, i, Special[1 + (b % Len(Special))])
\* Arbitrary ones of several lengths; some share everything that is displayed.
Rand == LET s == (RngInit(x[2], Seed))
            n == 30 + RngVal(s, 4) * RngVal(RngAdv(s), 12)
            f == (RandBytes(RngAdvN(s, 2), n))
            g == (RandBytes(RngAdvN(s, 90), 30 + RngVal(RngAdvN(s, 3), 35)))
            k == RngVal(RngAdvN(s, 5), 7)   \* so many groups in common
            h == (IF RngVal(RngAdvN(s, 4), 3) = 0 THEN [j \in 1..Len(g) |-> IF j <= 5 * k THEN f[j] ELSE g[j]] ELSE g)
        IN local' = f /\ remote' = h /\ alt' = With(h, 1 + RngVal(s, 6), Special[1 + RngVal(s, Len(Special))])

Next == /\ kind = "none"
        /\ kind' = x[1]
        /\ IF x[1] = "pair" THEN Pairs ELSE Rand
        /\ UNCHANGED x
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Symmetric == kind # "none" => Number(local, remote) = Number(remote, local)
SixtyDigits == kind # "none" => LET n == Number(local, remote) IN Len(n) = 12 /\ \A i \in 1..12 : n[i] \in 0..99999
\* A group that changes, changes the number.
Sensitive == kind # "none" => (Groups(alt) # Groups(remote) => Number(local, alt) # Number(local, remote))

Emit == kind # "none" => PrintT("@@" \o ToJson([kind |-> kind, local |-> local, remote |-> remote, number |-> Number(local, remote)]))
=============================================================================
