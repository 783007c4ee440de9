---------------------------- MODULE SimTelTrace ----------------------------
(* The block sequences of real files (scanned by harness/scan.py), read by the
   reader of SimTel: what SimTelFile has to deliver for them.               *)
EXTENDS SimTel

Given == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES no, decl
TraceInit ==
  /\ no \in 1..Len(Given)
  /\ tels = {Given[no].tels[i] : i \in 1..Len(Given[no].tels)}
  /\ file = Given[no].file
  /\ rs = Start0 /\ phase = "head"
  /\ head = {} /\ todo = {} /\ cut = [at |-> 0, how |-> ""]
  /\ decl = <<>>
  /\ cfg = [calib |-> FALSE, trig |-> FALSE, allowed |-> {}]
Fold == /\ phase = "head" /\ phase' = "fold"
        /\ rs' = FoldSteps(Start0, 1, file)
        /\ decl' = Declared(file)
        /\ UNCHANGED <<tels, file, head, todo, cfg, cut, no>>
SomeTels == LET one == {t \in tels : \E i \in 1..Len(file) : file[i].k \in {"AE", "CE"} /\ \E j \in 1..Len(file[i].x.ids) : file[i].x.ids[j] = t} IN
            {{}} \cup (IF one = {} THEN {} ELSE {{CHOOSE t \in one : \A u \in one : t <= u}, {CHOOSE t \in one : \A u \in one : u <= t, 4711}}) \cup {{4711}}
CutPlaces == {n \in 1..Len(file) : n % 23 = 3 \/ n > Len(file) - 5 \/ n \in rs.ready - 1..rs.ready + 2}
Choose == /\ phase = "fold" /\ phase' = "end"
          /\ IF Cuts
             THEN /\ Len(file) < 250 /\ cfg' = cfg
                  /\ \E n \in CutPlaces : \E h \in {"between", "header", "payload"} : cut' = [at |-> n, how |-> h]
             ELSE /\ \E c \in [calib : BOOLEAN, trig : BOOLEAN, allowed : SomeTels] : cfg' = c
                  /\ cut' = cut
          /\ UNCHANGED <<tels, file, head, todo, rs, no, decl>>

TraceNext == Fold \/ Choose

\* descriptions may be repeated in merged files
TraceInv == /\ phase = "fold" => Final(rs) = decl /\ IsPrefix(rs.out, decl)
            /\ (phase = "end" /\ cut.at > 0 /\ Cut.ready > 0) => LET e == CutEvents IN Len(e) <= Len(decl) /\ IsPrefix(Cut.out, decl) /\ Len(e) <= Len(Cut.out) + 1
TraceExport == phase = "end" =>
  LET s == IF cut.at > 0 THEN Cut ELSE rs
      full == IF cut.at > 0 THEN Final(s) ELSE decl IN
  CSVWrite("%1$s", <<ToJson([no |-> no, cfg |-> cfg, cut |-> cut, opened |-> s.ready > 0, events |-> Filtered(full, cfg),
     head |-> [history |-> s.history, gmeta |-> s.gmeta, tmeta |-> s.tmeta, rh |-> s.rh, nt |-> s.nt, mrs |-> s.mrs, ics |-> s.ics, aps |-> s.aps, desc |-> s.desc,
               hist |-> s.hist, ready |-> s.ready, cm |-> s.cm, lc |-> s.lc, pm |-> s.pm]])>>, IOEnv.OUT)
=============================================================================
