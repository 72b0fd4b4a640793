------------------------------ MODULE GRecords ------------------------------
(* Sender key records as containers, the analogue of Records for groups: a   *)
(* record holds the states of one sender, oldest first; a state of a known   *)
(* id is never added again, too many push out the oldest, setting a state    *)
(* replaces them all. A state holds a chain and message keys; a copy of it   *)
(* shares nothing that changes. Numbers are names, see Records.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxOps, Inits, MaxStates, MaxKeys

Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Last(s, n) == IF Len(s) > n THEN SubSeq(s, Len(s) - n + 1, Len(s)) ELSE s

St(id, it, ck, sig, priv, m) == [id |-> id, it |-> it, ck |-> ck, sig |-> sig, priv |-> priv, m |-> m]
Start == [empty |-> <<>>,
          own |-> <<St(1, 0, "c1", "g", TRUE, <<>>)>>,
          peer |-> <<St(3, 3, "c1", "h", FALSE, <<4, 2, 0>>), St(0, 0, "c2", "g", FALSE, <<>>)>>,
          states |-> [i \in 1..MaxStates |-> St(i + 9, 1, "c1", "h", FALSE, IF i = 2 THEN <<1, 9999>> ELSE <<>>)],
          keys |-> <<St(0, 0, "c2", "h", FALSE, <<1>>), St(1, 3, "c1", "g", FALSE, [i \in 1..MaxKeys |-> i])>>]

\* rec: the record; det: copies of states that belong to no record
VARIABLES init, rec, det, prog
vars == <<init, rec, det, prog>>

Init == init \in Inits /\ rec = Start[init] /\ det = <<>> /\ prog = <<>>

Op(op, t, id, it, ck, sig, m, yes) == [op |-> op, t |-> t, id |-> id, it |-> it, ck |-> ck, sig |-> sig, m |-> m, yes |-> yes]
Do(r, d, o) == rec' = r /\ det' = d /\ prog' = Append(prog, o) /\ UNCHANGED init

Known(id) == \E i \in DOMAIN rec : rec[i].id = id
Pos(id) == CHOOSE i \in DOMAIN rec : rec[i].id = id
HasKey(s, m) == \E i \in DOMAIN s.m : s.m[i] = m
KeyAt(s, m) == CHOOSE i \in DOMAIN s.m : s.m[i] = m /\ \A j \in 1..(i - 1) : s.m[j] # m

Add(id, it) == Do(IF Known(id) THEN rec ELSE Last(Append(rec, St(id, it, "c3", "x", FALSE, <<>>)), MaxStates), det,
                  Op("add", "", id, it, "c3", "x", 0, ~Known(id)))
Set(id, it) == Do(<<St(id, it, "c4", "y", TRUE, <<>>)>>, det, Op("set", "", id, it, "c4", "y", 0, TRUE))

\* t: where the state comes from: the first of the record, the one with an id, a detached copy
Places == {<<"det", i>> : i \in DOMAIN det} \cup {<<"first", 0>> : i \in {1} \cap DOMAIN rec} \cup
          {<<"id", n>> : n \in {n \in {0, 1, 11} : Known(n)}}
State(p) == CASE p[1] = "det" -> det[p[2]] [] p[1] = "first" -> rec[1] [] OTHER -> rec[Pos(p[2])]
Change(p, s, o) == CASE p[1] = "det" -> Do(rec, [det EXCEPT ![p[2]] = s], o)
                     [] p[1] = "first" -> Do([rec EXCEPT ![1] = s], det, o)
                     [] OTHER -> Do([rec EXCEPT ![Pos(p[2])] = s], det, o)
AddKey(p, m) == Change(p, [State(p) EXCEPT !.m = Last(Append(@, m), MaxKeys)], Op("addkey", p[1], p[2], 0, "", "", m, TRUE))
RemoveKey(p, m) ==
    LET has == HasKey(State(p), m) IN
    Change(p, IF has THEN [State(p) EXCEPT !.m = Without(@, KeyAt(State(p), m))] ELSE State(p), Op("removekey", p[1], p[2], 0, "", "", m, has))
Chain(p, it) == Change(p, [State(p) EXCEPT !.it = it, !.ck = "c5"], Op("chain", p[1], p[2], it, "c5", "", 0, TRUE))
Copy(p) == Len(det) < 2 /\ Do(rec, Append(det, State(p)), Op("copy", p[1], p[2], 0, "", "", 0, TRUE))
Reload == Do(rec, det, Op("reload", "", 0, 0, "", "", 0, TRUE))
ReloadState(p) == p[1] = "det" /\ Do(rec, det, Op("reloadstate", p[1], p[2], 0, "", "", 0, TRUE))

Next ==
    /\ Len(prog) < MaxOps
    /\ \/ \E id \in {0, 1, 2, 5, 10} : Add(id, 3)
       \/ Add(4, 0) \/ Add(3, 2)
       \/ \E id \in {0, 3} : Set(id, 0)
       \/ Reload
       \/ \E p \in Places :
           \/ AddKey(p, 9999) \/ AddKey(p, 2) \/ AddKey(p, 0)
           \/ RemoveKey(p, 2) \/ RemoveKey(p, 4) \/ RemoveKey(p, 9999) \/ RemoveKey(p, 7)
           \/ Chain(p, 2) \/ Copy(p) \/ ReloadState(p)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Bounded == Len(rec) <= MaxStates /\ \A i \in DOMAIN rec : Len(rec[i].m) <= MaxKeys
Distinct == Cardinality({rec[i].id : i \in DOMAIN rec}) = Len(rec)
\* who signs is never changed by anything that arrives
Signer == [][prog'[Len(prog')].op # "set" => \A i \in DOMAIN rec' : \A j \in {i, i + 1} \cap DOMAIN rec :
                rec'[i].id = rec[j].id => rec'[i].sig = rec[j].sig /\ rec'[i].priv = rec[j].priv]_vars
Alone == [][prog'[Len(prog')].t = "det" => rec' = rec]_vars

Emit == Len(prog) = MaxOps => PrintT("@@" \o ToJson([init |-> init, from |-> Start[init], prog |-> prog, rec |-> rec, det |-> det]))
=============================================================================
