----------------------------- MODULE Construct ------------------------------
(***************************************************************************)
(* Building values (P22): every program over the leaves and combiners      *)
(* below, one instruction per step.                                        *)
(***************************************************************************)
EXTENDS CborBuild, TLC, Json

CONSTANTS Leaves,     \* leaf instructions
          Combs,      \* names of combiners
          MaxProg,    \* instructions
          MaxStack

VARIABLES prog, st
vars == <<prog, st>>

Init == prog = <<>> /\ st = <<>>

Do(i) == /\ Len(prog) < MaxProg
         /\ prog' = Append(prog, i)
         /\ st' = Step(st, i)

Push == Len(st) < MaxStack /\ \E i \in Leaves : Do(i)
Masks(n) == [1..n -> {"some", "none", "plain"}]
Combine ==
  \/ \E c \in Combs \cap {"cbor_array", "cbor_array_vec", "from_vec"}, n \in 0..Len(st) :
       n <= 4 /\ Len(st) - n < MaxStack /\ Do(Ins(c, <<>>, n, <<>>))
  \/ \E c \in Combs \cap {"cbor_map", "cbor_map_collection", "from_pairs"}, n \in 0..(Len(st) \div 2) :
       Len(st) - 2 * n < MaxStack /\ Do(Ins(c, <<>>, 2 * n, <<>>))
  \/ /\ "cbor_map_options" \in Combs
     /\ \E n \in 0..(Len(st) \div 2) : \E m \in Masks(n) :
          Len(st) - 2 * n < MaxStack /\ Do(Ins("cbor_map_options", <<>>, 2 * n, m))
  \/ /\ "cbor_tagged" \in Combs /\ st # <<>>
     /\ \E t \in {<<0, 0, 0, 0, 0, 0, 0, 0>>, <<0, 0, 0, 0, 0, 0, 1, 0>>, <<255, 255, 255, 255, 255, 255, 255, 255>>} :
          Do(Ins("cbor_tagged", t, 1, <<>>))
  \/ "into" \in Combs /\ st # <<>> /\ Do(Ins("into", <<>>, 1, <<>>))
Next == Push \/ Combine

-----------------------------------------------------------------------------
RECURSIVE Size(_)
Size(v) == CASE v[1] = 4 -> FoldLeft(LAMBDA a, x : a + Size(x), 1, v[2])
             [] v[1] = 5 -> FoldLeft(LAMBDA a, x : a + Size(x[1]) + Size(x[2]), 1, v[2])
             [] v[1] = 6 -> 1 + Size(v[3])
             [] OTHER -> 1
\* Step by step is the whole.
RunIsSteps == st = Run(prog)
\* Unless an entry is left out, every instruction except `into' contributes one node.
NothingLost ==
  (\A i \in 1..Len(prog) : prog[i].c # "cbor_map_options" \/ \A j \in 1..Len(prog[i].m) : prog[i].m[j] # "none") =>
    FoldLeft(LAMBDA a, v : a + Size(v), 0, st) = Cardinality({i \in 1..Len(prog) : prog[i].c # "into"})
\* The sign decides between unsigned and negative, and -1-n is the negation.
Signs == \A i \in 1..Len(prog) :
  (prog[i].c \in {"i64", "i32", "cbor_int"}) => ((Leaf(prog[i])[1] = 1) <=> (prog[i].a[1] >= 128))
\* A label is the type of the value.
Labels == \A i \in 1..Len(st) : Label(st[i]) = st[i][1]

Emit == (Len(st) = 1) =>
  PrintT("@@" \o ToJson([op |-> "build", prog |-> prog, v |-> st[1], label |-> Label(st[1])]))

-----------------------------------------------------------------------------
I8(k, x) == Zeros(7 - k) \o <<x>> \o Zeros(k)          \* x * 256^k
FF(n) == [i \in 1..n |-> 255]
Word == {Zeros(8), FF(8)}
  \cup {I8(k, x) : k \in 0..7, x \in {1, 127, 128, 255}}
  \cup {Zeros(8 - k) \o FF(k) : k \in 1..7}
  \cup {FF(8 - k) \o Zeros(k) : k \in 1..7}
  \cup {FF(7) \o <<x>> : x \in {23, 24, 127, 128, 231, 232, 233, 254}}
  \cup {<<127>> \o FF(7), <<128>> \o Zeros(6) \o <<1>>, Zeros(7) \o <<20>>, Zeros(7) \o <<23>>, Zeros(7) \o <<24>>}
Half == {SubSeq(w, 5, 8) : w \in Word} \cup {<<127, 255, 255, 255>>, <<128, 0, 0, 0>>, <<255, 255, 255, 232>>}
Blobs == {<<>>, <<0>>, <<255>>, <<97, 0, 98>>, [i \in 1..24 |-> 7]}
Strings == {<<>>, <<97>>, <<98, 0>>, <<195, 188>>, <<240, 144, 133, 145>>, [i \in 1..25 |-> 120]}
AllLeaves ==
  {Ins(c, a, 0, <<>>) : c \in {"u64", "cbor_unsigned", "i64", "cbor_int"}, a \in Word}
  \cup {Ins("i32", a, 0, <<>>) : a \in Half}
  \cup {Ins(c, a, 0, <<>>) : c \in {"vec", "slice", "cbor_bytes", "cbor_bytes_lit"}, a \in Blobs}
  \cup {Ins(c, a, 0, <<>>) : c \in {"string", "str", "cbor_text_str", "cbor_text_string"}, a \in Strings}
  \cup {Ins(c, <<x>>, 0, <<>>) : c \in {"bool", "cbor_bool"}, x \in {0, 1}}
  \cup {Ins(c, <<>>, 0, <<>>) : c \in {"cbor_false", "cbor_true", "cbor_null", "cbor_undefined"}}
FewLeaves == {Ins("i64", FF(7) \o <<254>>, 0, <<>>), Ins("u64", Zeros(7) \o <<1>>, 0, <<>>), Ins("str", <<97>>, 0, <<>>)}
PairLeaves == {Ins("i64", FF(8), 0, <<>>), Ins("u64", Zeros(7) \o <<1>>, 0, <<>>)}
AllCombs == Combiners
MapCombs == {"cbor_map_options"}
=============================================================================
