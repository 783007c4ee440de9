---------------------------- MODULE SimTelDamage ----------------------------
(* A sim_telarray file in which one object stands where the structure requires an
   object of another type (C07): everything delivered before is unchanged, and the
   damaged block raises an error.                                              *)
EXTENDS SimTel
VARIABLE dmg
NoDmg == [at |-> 0, how |-> "", tel |-> 0]

DInit == Init /\ dmg = NoDmg
Sites == {i \in 1..Len(file) : file[i].k \in {"AE", "CE"} /\ i > rs.ready}
DamagesAt(i) ==
  LET x == file[i].x
      on == {x.ids[j] : j \in 1..Len(x.ids)} IN
  {[at |-> i, how |-> "trig", tel |-> 0]}
  \cup {[at |-> i, how |-> h, tel |-> t] : h \in {"telhead", "track"}, t \in on}
  \cup (IF file[i].k = "CE" THEN {[at |-> i, how |-> "ce", tel |-> 0]} ELSE {})
DamageIt == /\ phase = "end" /\ Sites # {}
            /\ \E d \in LET all == UNION {DamagesAt(i) : i \in Sites} IN IF Sim THEN {Some(all)} ELSE all : dmg' = d
            /\ phase' = "damaged"
            /\ UNCHANGED <<tels, file, head, todo, rs, cfg, cut>>
DNext == (Next /\ UNCHANGED dmg) \/ DamageIt
BeforeIt == FoldSteps(Start0, 1, SubSeq(file, 1, dmg.at - 1)).out
DamageInv == phase = "damaged" => IsPrefix(BeforeIt, Declared(file))
DamageExport == phase = "damaged" =>
  CSVWrite("%1$s", <<ToJson([tels |-> tels, file |-> file, cfg |-> cfg, cut |-> cut, dmg |-> dmg, events |-> BeforeIt])>>, IOEnv.OUT)
=============================================================================
