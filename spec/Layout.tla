------------------------------- MODULE Layout -------------------------------
(* Payload decoding (C16 - C22): a machine which consumes a layout item by item.

   Start chooses a case (object type, version, id, dimensions, flags) from the
   group, Decode runs the decoder over its layout.  It numbers the stored
   elements (tokens) in the order of storage and produces the list of stored
   runs and the result: for every key its shape and, element by element, the
   number of the token it comes from.  A version outside the supported set, or a
   storage mode which is not supported, is refused.                          *)
EXTENDS LayoutBase, Randomization, IOUtils, CSV, Json

RunM == INSTANCE LayoutRun
Evt == INSTANCE LayoutEvt
Adc == INSTANCE LayoutAdc
Iact == INSTANCE LayoutIact
Hist == INSTANCE LayoutHist

CONSTANTS Group,     \* "run", "evt", "adc", "iact", "phot", "hist"
          Mode       \* "content", "wide" (large dimensions) or "versions"

CasesOf(g) == CASE g = "run" -> RunM!RunCases [] g = "evt" -> {c \in Evt!EvtCases : ~Evt!EvtExcluded(c)} [] g = "adc" -> Adc!AdcCases
                [] g = "iact" -> Iact!IactCases [] g = "phot" -> Iact!PhotCases [] g = "hist" -> Hist!HistCases
WideOf(g) == CASE g = "run" -> RunM!RunWide [] g = "evt" -> Evt!EvtWide [] g = "adc" -> Adc!AdcWide
               [] g = "iact" -> Iact!IactWide [] g = "phot" -> Iact!PhotWide [] g = "hist" -> Hist!HistWide
LayoutOf(g, c) == CASE g = "run" -> RunM!RunLayout(c) [] g = "evt" -> Evt!EvtLayout(c) [] g = "adc" -> Adc!AdcLayout(c)
                    [] g = "iact" -> Iact!IactLayout(c) [] g = "phot" -> Iact!PhotLayout(c) [] g = "hist" -> Hist!HistLayout(c)
TypeOf(g, c) == IF g = "evt" THEN Evt!EvtType(c) ELSE c.t
IdOf(g, c) == CASE g = "run" -> RunM!RunId(c) [] g = "evt" -> Evt!EvtId(c) [] g = "adc" -> Adc!IdOf(c) [] g = "iact" -> c.id
                [] g = "phot" -> Iact!PhotId(c) [] g = "hist" -> c.id
Refusal(g, c) == CASE g = "adc" /\ Adc!AdcRefused(c) -> "NotImplementedError"
                   [] g = "evt" /\ Evt!EvtRefused(c) -> "NotImplementedError"
                   [] g = "iact" /\ Iact!IactRefused(c) -> "WrongSize"
                   [] OTHER -> ""
SupportedOf(g) == CASE g = "run" -> RunM!RunSupported [] g = "evt" -> Evt!EvtSupported [] g = "adc" -> Adc!AdcSupported
                    [] g = "iact" -> Iact!IactSupported [] g = "phot" -> Iact!PhotSupported [] g = "hist" -> Hist!HistSupported

VARIABLES phase, case, dec
vars == <<phase, case, dec>>

NoDec == [nt |-> 0, env |-> <<>>, stored |-> <<>>, exp |-> <<>>]
Init == phase = "init" /\ case = [t |-> 0] /\ dec = NoDec

StartContent == Mode \in {"content", "wide"} /\ \E c \in IF Mode = "wide" THEN WideOf(Group) ELSE CasesOf(Group) : case' = [c |-> c, ver |-> c.ver, refuse |-> Refusal(Group, c)]
StartVersions == /\ Mode = "versions"
                 /\ LET sup == SupportedOf(Group) IN
                    \E t \in DOMAIN sup : \E v \in sup[t] :
                      \E c \in RandomSubset(3, {x \in CasesOf(Group) : x.t = t /\ x.ver = v /\ Refusal(Group, x) = ""}) :
                        \E w \in (Versions \ sup[t]) \cup {v} :
                          case' = [c |-> c, ver |-> w, refuse |-> IF w \in sup[t] THEN "" ELSE "NotImplementedError"]
Start == phase = "init" /\ (StartContent \/ StartVersions) /\ phase' = "started" /\ UNCHANGED dec

-----------------------------------------------------------------------------
\* one item: d is the state of the decoder
Run(e, from, n) == [e |-> e, from |-> from, n |-> n, lit |-> <<>>]
Lit(e, v) == [e |-> e, from |-> 0, n |-> 0, lit |-> v]
Exp(k, w) == [k |-> k, what |-> w, sh |-> <<>>, v |-> <<>>, x |-> "", lit |-> <<>>]
Tok(d, r) == IF r = Zero THEN 0 ELSE IF r = NaN THEN -1 ELSE d.env[r[1]] + r[2] - 1
Toks(d, s) == [i \in 1..Len(s) |-> Tok(d, s[i])]
Long == 100   \* longer runs of tokens are given by their first one and their number
Count(m, n) == [i \in 1..n |-> m + i]

Consume(d, it) ==
  CASE it.op = "put" -> [d EXCEPT !.stored = Append(@, Lit(it.e, it.lit))]
    [] it.op = "key" -> [d EXCEPT !.stored = Append(@, Lit(it.e, it.lit)), !.exp = Append(@, [Exp(it.k, "lit") EXCEPT !.sh = it.sh, !.lit = it.lit])]
    [] it.op = "fld" -> [d EXCEPT !.stored = Append(@, Run(it.e, d.nt + 1, it.n)), !.nt = @ + it.n,
                                  !.exp = Append(@, IF it.n > Long THEN [Exp(it.k, "run") EXCEPT !.sh = it.sh, !.v = <<d.nt + 1, it.n>>, !.x = it.x]
                                                    ELSE [Exp(it.k, "arr") EXCEPT !.sh = it.sh, !.v = Count(d.nt, it.n), !.x = it.x])]
    [] it.op = "raw" -> [d EXCEPT !.stored = Append(@, Run(it.e, d.nt + 1, it.n)), !.nt = @ + it.n, !.env = (it.nm :> (d.nt + 1)) @@ @]
    [] it.op = "pad" -> [d EXCEPT !.stored = Append(@, Run(it.e, d.nt + 1, it.n)), !.nt = @ + it.n]
    [] it.op = "ref" -> [d EXCEPT !.exp = Append(@, [Exp(it.k, "arr") EXCEPT !.sh = it.sh, !.v = Toks(d, it.v), !.x = it.x])]
    [] it.op = "const" -> [d EXCEPT !.exp = Append(@, [Exp(it.k, "const") EXCEPT !.lit = it.c])]
    [] it.op = "none" -> [d EXCEPT !.exp = Append(@, Exp(it.k, "none"))]
    [] it.op = "absent" -> [d EXCEPT !.exp = Append(@, Exp(it.k, "absent"))]
    [] it.op = "len" -> [d EXCEPT !.exp = Append(@, [Exp(it.k, "len") EXCEPT !.sh = <<it.n>>])]
    [] it.op = "pairs" -> [d EXCEPT !.exp = Append(@, [Exp(it.k, "pairs") EXCEPT !.v = Toks(d, it.lit), !.sh = Toks(d, it.v)])]

DecodeAll(d, items) == FoldLeft(Consume, d, items)

Decode == /\ phase = "started" /\ phase' = "done"
          /\ dec' = DecodeAll(NoDec, LayoutOf(Group, case.c))
          /\ UNCHANGED case
Next == Start \/ Decode

-----------------------------------------------------------------------------
\* every element of the payload has exactly one place: tokens are stored once, in order
Tiling == phase = "done" =>
  LET runs == SelectSeq(dec.stored, LAMBDA r : r.from > 0)
      Past(i) == runs[i].from + runs[i].n IN
  /\ \A i \in 1..Len(runs) : runs[i].from = IF i = 1 THEN 1 ELSE Past(i - 1)
  /\ runs # <<>> => Past(Len(runs)) = dec.nt + 1
\* a key has one value, values are as many as the shape says and are stored elements
KeysOk == phase = "done" =>
  /\ \A i, j \in 1..Len(dec.exp) : i # j /\ dec.exp[i].what # "len" /\ dec.exp[j].what # "len" => dec.exp[i].k # dec.exp[j].k
  /\ \A i \in 1..Len(dec.exp) : LET e == dec.exp[i] IN
       /\ e.what = "arr" => Len(e.v) = Prod(e.sh) /\ \A j \in 1..Len(e.v) : e.v[j] >= -1 /\ e.v[j] <= dec.nt
       /\ e.what = "run" => e.v[2] = Prod(e.sh) /\ e.v[1] >= 1 /\ e.v[1] + e.v[2] - 1 <= dec.nt
Inv == Tiling /\ KeysOk

Export == phase = "done" =>
  CSVWrite("%1$s", <<ToJson([t |-> TypeOf(Group, case.c), ver |-> case.ver, id |-> IdOf(Group, case.c), refuse |-> case.refuse,
                             case |-> case.c, stored |-> dec.stored, exp |-> dec.exp])>>, IOEnv.OUT)
=============================================================================
