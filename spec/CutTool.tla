------------------------------ MODULE CutTool ------------------------------
(* The tool which cuts a file (C25): of the top-level objects it keeps the longest
   sequence from the beginning that is not larger than the size asked for.

   The size is given as text: digits and an optional unit.  sizes[i] is the total size
   of the i-th top-level object; the outcome is either "error" (the text is no size)
   or the number of objects kept.                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS Family,      \* "few" | "random" | "text" | "mega"
          Sim

VARIABLES sizes, sub, ext, limit, arg, form, out, keep, phase
vars == <<sizes, sub, ext, limit, arg, form, out, keep, phase>>

Some(S) == RandomElement({x \in S : phase # "x"})
RECURSIVE Sum(_, _)
Sum(s, n) == IF n = 0 THEN 0 ELSE s[n] + Sum(s, n - 1)
Ends(s) == {Sum(s, n) : n \in 1..Len(s)}

Forms == {"plain", "gzproc", "zstd", "gzmulti", "zstdmulti"}

(* the text: a list of characters; value in units *)
Units == [none |-> 1, k |-> 1024, M |-> 1048576, G |-> 1073741824]
Chars == {"0", "1", "9", "k", "M", "G", "K", "m", "g", ".", "-", "+", "b", "e", " ", "\n"}
DigitsOf(c) == c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Valid(t) == \E n \in 1..Len(t) : (\A i \in 1..n : DigitsOf(t[i])) /\ (n = Len(t) \/ (n = Len(t) - 1 /\ t[Len(t)] \in {"k", "M", "G"}))
NumOf == [c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} |-> CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4 [] c = "5" -> 5
                                                     [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9]
\* value in bytes, at most Cap (the files are much smaller than that)
Cap == 2000000000
RECURSIVE Number(_, _)
Number(t, acc) == IF t = <<>> \/ ~DigitsOf(Head(t)) THEN acc ELSE Number(Tail(t), IF acc > 100000000 THEN 100000001 ELSE 10 * acc + NumOf[Head(t)])
Times(n, u) == IF n > Cap \div u THEN Cap ELSE n * u
Value(t) == Times(Number(t, 0), CASE t[Len(t)] = "k" -> 1024 [] t[Len(t)] = "M" -> 1048576 [] t[Len(t)] = "G" -> 1073741824 [] OTHER -> 1)
Texts(n) == UNION {[1..i -> Chars] : i \in 0..n}

Digit(d) == CASE d = 0 -> "0" [] d = 1 -> "1" [] d = 2 -> "2" [] d = 3 -> "3" [] d = 4 -> "4" [] d = 5 -> "5" [] d = 6 -> "6" [] d = 7 -> "7" [] d = 8 -> "8" [] d = 9 -> "9"
RECURSIVE Decimal(_)
Decimal(n) == IF n < 10 THEN <<Digit(n)>> ELSE Decimal(n \div 10) \o <<Digit(n % 10)>>
Text(n, u) == Decimal(n) \o (IF u = "none" THEN <<>> ELSE <<u>>)

Init == /\ sizes = <<>> /\ sub = <<>> /\ ext = <<>> /\ limit = 0 /\ arg = <<>> /\ form = "" /\ out = "" /\ keep = -1 /\ phase = "start"

\* (an object has at least 16 bytes)
FewSizes == {<<16>>, <<16, 20, 17>>, <<1023, 16, 16>>, <<1008, 16, 1024, 1>>}
NearK == {1008, 1024, 1025, 1040, 2047, 2048, 2049}
SizesOf ==
  CASE Family = "few" -> {<<16>>, <<16, 20, 17>>, <<1024>>, <<1000, 24, 1024, 16>>, <<1008, 17, 1023>>, <<16, 16, 16, 16, 16>>, <<2032, 16, 16>>, <<2032, 17, 1024>>}
    [] Family = "text" -> {<<16, 1000, 8, 1024>>}
    [] Family = "mega" -> {<<16, 1000000 - 16, 24000, 24576 - 1, 17>>, <<1048575, 16>>, <<1048560, 16, 1048576, 16>>, <<1048577>>, <<20, 3000000, 50>>}
    [] Family = "random" -> {[i \in 1..Some(1..7) |-> LET k == Some(1..4) IN CASE k = 1 -> Some(16..40) [] k = 2 -> Some(16..1500) [] k = 3 -> Some(NearK) [] k = 4 -> Some(16..20000)]}
FixSizes(s) == [i \in DOMAIN s |-> IF s[i] < 16 THEN 16 ELSE s[i]]

LimitsOf(s) ==
  IF Family = "random" THEN {LET e == Some(Ends(s)) k == Some(1..4) IN CASE k = 1 -> e + Some(-1..1) [] k = 2 -> Some(0..(Sum(s, Len(s)) + 20)) [] k \in {3, 4} -> e}
  ELSE {e + d : e \in Ends(s), d \in -1..1} \cup {0, 1, 15}
\* the limit itself, or in larger units (rounded to what can be said in them)
ArgsOf(l) ==
  IF Family = "random" THEN {LET k == Some(1..6) IN CASE k = 1 -> Text((l \div 1024) + Some(0..1), "k") [] k = 2 -> Text(Some(0..1), "M") [] k = 3 -> <<"0">> \o Text(l, "none") [] OTHER -> Text(l, "none")}
  ELSE {Text(l, "none"), Text(l \div 1024, "k"), Text(l \div 1048576, "M")} \cup (IF l % 1024 = 0 THEN {<<"0", "0">> \o Text(l \div 1024, "k")} ELSE {}) \cup (IF l = 0 THEN {Text(0, "G"), Text(1, "G"), Text(3, "G"), Text(999999, "G")} ELSE {})

Outs == {"plain", "gz"}
Choose ==
  /\ phase = "start" /\ phase' = "run"
  /\ \E s \in SizesOf :
       /\ sizes' = FixSizes(s)
       /\ IF Family = "text" THEN arg' \in Texts(3) /\ limit' = 0
          ELSE \E l \in LimitsOf(sizes') : limit' = (IF l < 0 THEN 0 ELSE l) /\ arg' \in ArgsOf(limit')
       /\ ext' = [i \in DOMAIN s |-> IF Sim THEN Some(1..5) = 1 /\ sizes'[i] >= 20 ELSE i = 2 /\ sizes'[i] >= 20]
       /\ sub' = [i \in DOMAIN s |-> IF Sim THEN Some(1..4) = 1 /\ sizes'[i] >= 44 ELSE i = 1 /\ sizes'[i] >= 44]
  /\ form' \in (IF Sim THEN {Some(Forms)} ELSE IF Family = "text" THEN {"plain"} ELSE {"plain", "gzproc", "zstdmulti"})
  /\ out' \in (IF Sim THEN {Some(Outs)} ELSE IF Family = "text" THEN {"plain"} ELSE Outs)
  /\ UNCHANGED keep

(* what the tool does: object by object *)
Refuse == phase = "run" /\ keep = -1 /\ ~Valid(arg) /\ phase' = "error" /\ UNCHANGED <<sizes, sub, ext, limit, arg, form, out, keep>>
Begin == phase = "run" /\ keep = -1 /\ Valid(arg) /\ keep' = 0 /\ UNCHANGED <<sizes, sub, ext, limit, arg, form, out, phase>>
Take == phase = "run" /\ keep >= 0 /\ keep < Len(sizes) /\ Sum(sizes, keep + 1) <= Value(arg) /\ keep' = keep + 1 /\ UNCHANGED <<sizes, sub, ext, limit, arg, form, out, phase>>
Finish == /\ phase = "run" /\ keep >= 0 /\ (IF keep = Len(sizes) THEN TRUE ELSE Sum(sizes, keep + 1) > Value(arg)) /\ phase' = "done"
          /\ UNCHANGED <<sizes, sub, ext, limit, arg, form, out, keep>>
Next == Choose \/ Refuse \/ Begin \/ Take \/ Finish

\* at most the size asked for, and one object more would be too much
Fits == phase = "done" => Sum(sizes, keep) <= Value(arg)
Longest == phase = "done" => keep = Cardinality({n \in 1..Len(sizes) : Sum(sizes, n) <= Value(arg)})
Exact == (phase = "done" /\ Family # "text" /\ arg = Text(limit, "none")) => Value(arg) = limit
Inv == Fits /\ Longest /\ Exact
Export == phase \in {"done", "error"} => CSVWrite("%1$s", <<ToJson([sizes |-> sizes, sub |-> sub, ext |-> ext, arg |-> arg, form |-> form, out |-> out, keep |-> keep, err |-> phase = "error"])>>, IOEnv.OUT)
=============================================================================
