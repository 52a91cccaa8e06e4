------------------------------ MODULE MCReader ------------------------------
(* Alphabets for exploring ReaderMachine with TLC; see the MCReader_*.cfg.  *)
EXTENDS ReaderMachine

AllBytes == 0..255
Both == {TRUE, FALSE}
StrictOnly == {TRUE}

\* Every initial byte, every argument byte.
ExtrasSmall == {0, 255}
Lim127 == {127}
LimTyped == {64}

\* Maps: integer, text, array, map and tagged keys in and out of order.
MapHeads == {0, 1, 32, 64, 96, 97, 128, 129, 160, 161, 162, 193, 244}
MapHeadsSmall == {0, 1, 96, 128, 161, 162, 163}
MapHeadsKeys == {0, 24, 32, 65, 97, 162, 163}
MapArgs == {0, 23, 24}
MapConts == {0, 97, 98}

\* Text: every transition of the UTF-8 automaton and its neighbours.
TextHeads == {65, 97, 98, 99, 100, 101, 120, 129}
TextArgs == {0, 1, 3, 24}
TextConts == {0, 97, 127, 128, 143, 144, 159, 160, 191, 192, 193, 194, 223, 224, 225,
              236, 237, 238, 239, 240, 241, 243, 244, 245, 255}
TextHeads4 == {98, 99, 100}
TextConts4 == {97, 128, 143, 144, 159, 160, 191, 194, 224, 237, 239, 240, 244, 245}

\* Heads with every argument width, for every major type, and reserved ones.
WideHeads == {m * 32 + a : m \in 0..7, a \in 23..31}
WideArgs == {0, 1, 24, 128, 255}
WideArgs8 == {0, 23, 255}
Wide8Heads == {m * 32 + 27 : m \in 0..7}
Tag8Heads == {0, 219}

\* Nesting through every kind of child position.
NestHeads == {0, 128, 160, 129, 161, 193, 130}
NestLimits == {-128, -1, 0, 1, 2, 3, NoLimit}
NestHeadsDeep == {0, 128, 129, 161, 193}
NestLimitsAll == {-1, 0, 1, 2, 3, 4, 5, 6, NoLimit}
Args3 == {0, 1, 23, 24, 32, 127, 128, 255}
Conts3 == {0, 97, 127, 128, 169, 194, 255}
NestLimitsDeep == {1, 2, 3, 4, 5}
=============================================================================
