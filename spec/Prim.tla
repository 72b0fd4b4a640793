-------------------------------- MODULE Prim --------------------------------
(* The primitives under everything else: AES-CBC with PKCS#7 padding, HKDF,  *)
(* X25519, the encoding of points and the cutting of byte strings. What is   *)
(* an error and what is not, and the shape of results, is decided here; the  *)
(* bytes of a cipher or hash are computed by the replay from the standards.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxText,      \* plaintexts of up to so many bytes
          KeyLens,      \* lengths of AES keys
          Blocks,       \* ciphertexts of up to so many blocks
          PadVals,      \* values of the last byte
          Outs          \* output lengths of HKDF

Block == 16
Goods == {16, 24, 32}

(* PKCS#7 *)
Pad(t) == LET n == Block - (Len(t) % Block) IN t \o [i \in 1..n |-> n]
Bad == <<-1>>
Unpad(b) ==
    LET l == Len(b) IN
    IF l = 0 \/ l % Block # 0 THEN Bad ELSE
    LET n == b[l] IN
    IF n = 0 \/ n > Block \/ n > l \/ (\E i \in l - n + 1 .. l : b[i] # n) THEN Bad
    ELSE SubSeq(b, 1, l - n)

Text(n, k) == [i \in 1..n |-> (i * (2 * k + 7) + 31 * k) % 256]

(* Encryption of a text. With no initialization vector given, 16 random bytes are drawn and put *)
(* in front ("cbc" only).                                                                       *)
Enc(fn, kl, tl, iv) == kl \in Goods /\ (fn = "plain" => tl > 0)
(* Decryption of so many bytes of ciphertext whose blocks hold b. *)
DecOk(fn, kl, cl, iv, b) ==
    /\ kl \in Goods
    /\ cl % Block = 0 /\ Len(b) = cl - (IF iv THEN 0 ELSE Block)
    /\ Unpad(b) # Bad

(* HKDF gives at most 255 blocks of its hash. *)
Hkdf(out) == out <= 255 * 32

(* Agreement: a commutative function of the two secrets; every point of small order gives zero. *)
(* The unused top bit of a point does not matter.                                                *)
Agree(x, p) == IF p.low THEN "zero" ELSE {x, p.of}

(* A point is a type byte, 5, and 32 bytes, from the offset on. *)
PointOk(len, off, type) == off >= 0 /\ len - off >= 33 /\ type = 5

(* Three parts in a row. *)
SplitOk(len, x, y, z) == x >= 0 /\ y >= 0 /\ z >= 0 /\ len >= x + y + z

----------------------------------------------------------------------------
VARIABLES op, a, ok, text, data
vars == <<op, a, ok, text, data>>

Devs(v) == 0 .. (IF v < Block THEN v ELSE Block)      \* which byte of the padding deviates, none

Cases ==
    \/ a \in {<<"enc", fn, kl, tl, iv>> : fn \in {"cbc", "plain"}, kl \in KeyLens, tl \in 0..MaxText, iv \in {TRUE}}
    \/ a \in {<<"enc", "cbc", kl, tl, FALSE>> : kl \in KeyLens, tl \in 0..MaxText}
    \/ a \in {<<"encfail", "cbc", 32, tl, cut>> : tl \in {0, 1, 16, 17}, cut \in 0..Block}
    \/ \E iv \in BOOLEAN, v \in PadVals : a \in {<<"dec", fn, 32, bl, iv, v, d>> : fn \in (IF iv THEN {"cbc", "plain"} ELSE {"cbc"}), bl \in 0..Blocks, d \in Devs(v)}
    \/ a \in {<<"dec", fn, kl, 2, TRUE, 5, 0>> : fn \in {"cbc", "plain"}, kl \in KeyLens}
    \/ a \in {<<"ragged", fn, 32, cl, TRUE>> : fn \in {"cbc", "plain"}, cl \in {c \in 0..(Block * Blocks) : c % Block # 0}}
    \/ a \in {<<"ragged", "cbc", 32, cl, FALSE>> : cl \in {c \in 0..(Block * Blocks) : c % Block # 0}}
    \/ a \in {<<"hkdf", ikm, salt, info, out>> : ikm \in {0, 1, 32, 33, 64, 65, 128}, salt \in {-1, 0, 1, 32, 65}, info \in {-1, 0, 1, 18, 70}, out \in Outs}
    \/ a \in {<<"agree", x, y, top>> : x \in 0..4, y \in 0..4, top \in BOOLEAN}
    \/ a \in {<<"low", x, y, top>> : x \in 0..4, y \in 0..6, top \in BOOLEAN}
    \/ a \in {<<"pair", l, k>> : l \in {0, 1, 31, 32, 33, 64}, k \in 0..4}
    \/ a \in {<<"point", l, off, ty>> : l \in {0, 1, 5, 32, 33, 34, 35, 40, 70}, off \in {-1, 0, 1, 2, 7, 33, 37, 71}, ty \in {0, 1, 4, 5, 6, 5 + 128, 255}}
    \/ a \in {<<"split", l, x, y, z>> : l \in {-1, 0, 1, 2, 3, 5, 48}, x \in {-1, 0, 1, 2, 16}, y \in {-1, 0, 1, 32}, z \in {-1, 0, 1, 8}}

Init == /\ op = "none"
        /\ Cases
        /\ ok = FALSE /\ text = <<>> /\ data = <<>>

\* The blocks of a ciphertext: text, then v times v, with byte d of it (from the end) changed.
BlocksOf(bl, iv, v, d) ==
    LET l == Block * (bl - (IF iv THEN 0 ELSE 1))
    IN IF l <= 0 THEN <<>>
       ELSE [i \in 1..l |-> IF l - i < v
                            THEN (IF d > 1 /\ l - i = d - 1 THEN (v + 1 + i) % 256 ELSE v)
                            ELSE IF i = l THEN v ELSE (i * 11 + v + 3 * bl) % 256]

Next ==
    /\ op = "none" /\ op' = a[1] /\ UNCHANGED a
    /\ CASE a[1] = "enc" ->
              /\ ok' = Enc(a[2], a[3], a[4], a[5])
              /\ text' = Text(a[4], a[3]) /\ data' = Pad(text')
         [] a[1] = "encfail" ->
              /\ ok' = (a[5] >= Block) /\ text' = Text(a[4], a[5]) /\ data' = Pad(text')
         [] a[1] = "dec" ->
              /\ data' = BlocksOf(a[4], a[5], a[6], a[7])
              /\ ok' = (DecOk(a[2], a[3], Block * a[4], a[5], data') /\ (~a[5] => a[4] > 1))
              /\ text' = IF ok' THEN Unpad(data') ELSE <<>>
         [] a[1] = "ragged" -> ok' = FALSE /\ text' = <<>> /\ data' = Text(a[4], 3)
         [] a[1] = "hkdf" -> ok' = Hkdf(a[5]) /\ UNCHANGED <<text, data>>
         [] a[1] = "agree" -> ok' = (Agree(a[2], [low |-> FALSE, of |-> a[3]]) = Agree(a[3], [low |-> FALSE, of |-> a[2]])) /\ UNCHANGED <<text, data>>
         [] a[1] = "low" -> ok' = (Agree(a[2], [low |-> TRUE, of |-> a[3]]) = "zero") /\ UNCHANGED <<text, data>>
         [] a[1] = "pair" -> ok' = TRUE /\ UNCHANGED <<text, data>>
         [] a[1] = "point" -> ok' = PointOk(a[2], a[3], a[4]) /\ UNCHANGED <<text, data>>
         [] a[1] = "split" -> ok' = (a[2] >= 0 /\ SplitOk(a[2], a[3], a[4], a[5])) /\ UNCHANGED <<text, data>>
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* Every text comes back, and only what was padded so is taken.
RoundTrip == op \in {"enc", "encfail"} => Len(data) % Block = 0 /\ Len(data) > Len(text) /\ Unpad(data) = text
OnlyPadded == op = "dec" => (Unpad(data) # Bad => Pad(Unpad(data)) = data)
\* A wrong byte anywhere in the padding is an error.
DeviationRefused == op = "dec" /\ a[7] > 1 /\ a[7] <= a[6] => ~ok
Commutes == op \in {"agree", "low"} => ok

Emit == op # "none" => PrintT("@@" \o ToJson([op |-> op, a |-> a, ok |-> ok, text |-> text, data |-> data]))
=============================================================================
