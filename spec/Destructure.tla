----------------------------- MODULE Destructure -----------------------------
(***************************************************************************)
(* Extracting keys from a sorted map by a single pass over its entries.    *)
(*                                                                         *)
(* A caller asks for keys in increasing order, each time leniently         *)
(* (entries before the key are dropped) or strictly (an entry before the   *)
(* key is reported as unknown, and stays).                                 *)
(***************************************************************************)
EXTENDS CborBuild, TLC, Json

CONSTANTS NKeys,      \* how many of the keys below take part
          MaxCalls,
          Modes       \* "lenient", "strict"

\* In canonical order.
K == << Uint(2), Uint(24), Nint(-1), <<2, <<>>>>, Text(<<98>>), Text(<<97, 97>>), <<4, <<Uint(1)>>>>, VTrue >>
ASSUME \A i \in 1..(Len(K) - 1) : Cmp(K[i], K[i + 1]) < 0
KeyNo == 1..NKeys
\* Present is not the same as not null.
X(i) == CASE i % 3 = 0 -> VNull [] i % 3 = 1 -> Uint(i) [] OTHER -> <<4, <<Uint(i)>>>>

VARIABLES map,     \* the keys of the map, as a set of numbers
          rest,    \* the entries not consumed yet, in order
          calls,   \* finished calls: mode, key, answer
          now      \* the call in progress, or none
vars == <<map, rest, calls, now>>

Idle == now = <<>>
Upto == IF calls = <<>> THEN 1 ELSE calls[Len(calls)].key
Init == /\ map \in SUBSET KeyNo
        /\ rest = SelectSeq([i \in 1..NKeys |-> i], LAMBDA i : i \in map)
        /\ calls = <<>> /\ now = <<>>

First == IF rest = <<>> THEN 99 ELSE rest[1]
Answer(a) == calls' = Append(calls, [mode |-> now.mode, key |-> now.key, ans |-> a]) /\ now' = <<>>

Call == /\ Idle /\ Len(calls) < MaxCalls
        /\ \E m \in Modes, k \in KeyNo : k >= Upto /\ now' = [mode |-> m, key |-> k]
        /\ UNCHANGED <<map, rest, calls>>
Pass == /\ ~Idle /\ First < now.key /\ now.mode = "lenient"
        /\ rest' = Tail(rest) /\ UNCHANGED <<map, calls, now>>
Refuse == /\ ~Idle /\ First < now.key /\ now.mode = "strict"
          /\ Answer("unknown") /\ UNCHANGED <<map, rest>>
Take == /\ ~Idle /\ First = now.key
        /\ Answer("some") /\ rest' = Tail(rest) /\ UNCHANGED map
Miss == /\ ~Idle /\ First > now.key
        /\ Answer("none") /\ UNCHANGED <<map, rest>>
Next == Call \/ Pass \/ Refuse \/ Take \/ Miss

-----------------------------------------------------------------------------
Before(i) == {calls[j].key : j \in 1..(i - 1)}
\* Each key is found exactly if the map has it and it was not asked for before.
Finds ==
  \A i \in 1..Len(calls) :
    LET c == calls[i] IN
    /\ c.ans = "some" => c.key \in map
    /\ c.mode = "lenient" => (c.ans = "some" <=> c.key \in map \ {calls[j].key : j \in {j \in 1..(i - 1) : calls[j].ans = "some"}})
    /\ c.ans = "unknown" => c.mode = "strict" /\ \E k \in map : k < c.key
\* As long as nothing was unknown, a strict caller has seen every entry up to its key.
StrictSeesAll ==
  (Idle /\ \A i \in 1..Len(calls) : calls[i].mode = "strict" /\ calls[i].ans # "unknown") =>
    /\ {rest[j] : j \in 1..Len(rest)} = map \ Before(Len(calls) + 1)
    /\ \A k \in map : (calls # <<>> /\ k <= Upto) => k \in Before(Len(calls) + 1)
\* Nothing after the key is touched, nothing is reordered.
LeavesRest == /\ \A k \in map : ((calls = <<>> \/ k > Upto) /\ (Idle \/ k > now.key)) => (\E j \in 1..Len(rest) : rest[j] = k)
              /\ \A j \in 1..(Len(rest) - 1) : rest[j] < rest[j + 1]

Entries(S) == LET o == SelectSeq([i \in 1..NKeys |-> i], LAMBDA i : i \in S) IN [j \in 1..Len(o) |-> <<K[o[j]], X(o[j])>>]
Shown == [i \in 1..Len(calls) |-> [mode |-> calls[i].mode, key |-> K[calls[i].key], ans |-> calls[i].ans,
                                   v |-> IF calls[i].ans = "some" THEN X(calls[i].key) ELSE <<>>]]
Rest == [j \in 1..Len(rest) |-> <<K[rest[j]], X(rest[j])>>]
\* The machine computes the big-step meaning.
Refines == Idle => LET p == PeekAll(Entries(map), Shown) IN
                   /\ p.rest = Rest
                   /\ p.out = [i \in 1..Len(calls) |-> <<Shown[i].ans, Shown[i].v>>]

Emit == (Idle /\ Len(calls) = MaxCalls) =>
  PrintT("@@" \o ToJson([op |-> "destructure", m |-> Entries(map), calls |-> Shown, rest |-> Rest]))
=============================================================================
