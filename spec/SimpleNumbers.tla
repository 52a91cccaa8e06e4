--------------------------- MODULE SimpleNumbers ----------------------------
(* Simple values by number (P22).                                          *)
EXTENDS CborBuild, TLC, Json
VARIABLE n
Far == {<<1, x>> : x \in {0, 20, 21, 22, 23}} \cup {<<x, 0, 0, 0, 0>> : x \in {20, 22}}
       \cup {<<1, 0, 0, 0, x>> : x \in 20..23} \cup {<<1, 0, 0, 0, 0, 0, 0, x>> : x \in 20..23} \cup {[i \in 1..8 |-> 255]}
Init == n \in {FromInt(i) : i \in 0..1024} \cup Far
Next == UNCHANGED n
OnlyFour == FromNumber(n) # <<>> <=> n \in {<<20>>, <<21>>, <<22>>, <<23>>}
Emit == PrintT("@@" \o ToJson([op |-> "simple", n |-> n, r |-> FromNumber(n)]))
=============================================================================
