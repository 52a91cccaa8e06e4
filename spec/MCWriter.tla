------------------------------ MODULE MCWriter ------------------------------
(* Bounds for exploring WriterMachine with TLC; see the MCWriter_*.cfg.     *)
EXTENDS WriterMachine
ByteStr(s) == <<2, s>>
Small == {Uint(0), Uint(24), Nint(-1), Text(<<97>>), VNull}
Keys == {Uint(10), Uint(100), Nint(-1), Text(<<>>), Text(<<98>>), ByteStr(<<1>>)}
Tiny == {Uint(0), Text(<<97>>)}
OneLeaf == {Uint(0)}
\* Every width and boundary of heads.
Bounds == {<<m, n>> : m \in {0, 1}, n \in {<<>>, <<23>>, <<24>>, <<255>>, <<1, 0>>, <<255, 255>>, <<1, 0, 0>>,
              <<255, 255, 255, 255>>, <<1, 0, 0, 0, 0>>, <<127, 255, 255, 255, 255, 255, 255, 255>>,
              <<128, 0, 0, 0, 0, 0, 0, 0>>, <<255, 255, 255, 255, 255, 255, 255, 255>>}}
          \cup {VFalse, VTrue, VNull, VUndef, Text(<<195, 169>>), ByteStr(<<0, 255>>), Text(<<>>), ByteStr(<<>>)}
TagsSmall == {<<>>, <<24>>}
TagsBounds == {<<>>, <<23>>, <<24>>, <<255>>, <<1, 0>>, <<1, 0, 0>>, <<255, 255, 255, 255>>, <<1, 0, 0, 0, 0>>,
               <<255, 255, 255, 255, 255, 255, 255, 255>>}
Perm == {Uint(24), Nint(-1), Text(<<97>>)}
\* Maps within keys, in and out of order, at every kind of position.
Inner == {<<5, << <<Uint(1), Uint(0)>>, <<Uint(0), Uint(1)>> >>>>, <<5, << <<Uint(0), Uint(1)>>, <<Uint(1), Uint(0)>> >>>>,
          <<5, << <<Uint(0), Uint(1)>>, <<Uint(1), Uint(1)>> >>>>}
Wrapped(m) == {m, <<4, <<m>>>>, <<6, <<1>>, m>>, <<5, << <<Uint(0), m>> >>>>, <<5, << <<m, Uint(0)>> >>>>}
KeysWithMaps == {Uint(0)} \cup UNION {Wrapped(m) : m \in Inner}
TwoEntries == /\ tokens < 5 => \A i \in 1..Len(work) : work[i] \in (IF i % 2 = 1 THEN Leaves ELSE {Uint(0)} \cup Inner)
              /\ tokens = 5 => Len(work) = 1
NoTags == {}
L127 == {127}
LNest == {-128, -1, 0, 1, 2, 3, NoLimit}
LTwo == {127, 1}
Empty == {<<>>}
Prefix == {<<>>, <<7, 130>>}
=============================================================================
