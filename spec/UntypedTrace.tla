---------------------------- MODULE UntypedTrace ----------------------------
(***************************************************************************)
(* Sessions recorded from the real untyped API, checked event by event.    *)
(*                                                                         *)
(* A session owns an output buffer.  An event is one public call: its      *)
(* arguments and everything observable when it returned.  An event that no *)
(* action explains leaves the session stuck, which TLC reports as a        *)
(* deadlock whose last state names the session and the event.              *)
(*                                                                         *)
(* PROP selects which observations the property under check speaks about.  *)
(***************************************************************************)
EXTENDS CborBuild, TLC, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)
PROP == IOEnv.PROP

V(x) == Unflat(x)

VARIABLES sid, l, buf
vars == <<sid, l, buf>>

Evs == Sessions[sid].evs
Ev == Evs[l]
IsOp(o) == l <= Len(Evs) /\ Ev.op = o

Init == /\ sid \in 1..Len(Sessions) /\ l = 1 /\ buf = Sessions[sid].buf

\* Outcomes: [k |-> "ok", ..], [k |-> "err", e |-> name] or [k |-> "panic"].
IsOk(r) == r.k = "ok"
IsErr(r) == r.k = "err"

-----------------------------------------------------------------------------
(* Which part of a decoding outcome a property speaks about.               *)
JudgeRead(r, x, strict) ==
  CASE PROP = "P01" -> strict => /\ IsOk(r) <=> x.e = ""
                                 /\ IsOk(r) => V(r.v) = x.v
    [] PROP = "P07" -> IsErr(r) => x.e = r.e
    [] PROP = "P05" -> ((IsErr(r) /\ r.e = "TooMuchNesting") <=> x.e = "TooMuchNesting") /\ (x.e = "" => IsOk(r))
    [] PROP \in {"P06", "P25"} -> r.k # "panic"
    [] PROP = "P04" -> strict \/ (/\ r.k # "panic"
                                  /\ (IsOk(r) <=> x.e = "")
                                  /\ (IsOk(r) => V(r.v) = x.v)
                                  /\ (IsErr(r) => r.e = x.e))
    [] OTHER -> IF x.e = "" THEN IsOk(r) /\ V(r.v) = x.v ELSE IsErr(r) /\ r.e = x.e

\* Reading a byte string with a limit.
Read ==
  /\ IsOp("read")
  /\ LET x == Decode(Ev.b, Ev.l, Ev.s) IN
       /\ JudgeRead(Ev.r, x, Ev.s)
       \* Peak allocation during the call, for P25: linear in the input.
       /\ (PROP = "P25" => Ev.peak <= 4096 + 1024 * Len(Ev.b))
  /\ l' = l + 1 /\ UNCHANGED <<sid, buf>>

\* Strict and non-strict reading of the same bytes (P04, P27).
ReadBoth ==
  /\ IsOp("readboth")
  /\ IsOk(Ev.rs) => Ev.rl = Ev.rs
  /\ JudgeRead(Ev.rl, DecodeLenient(Ev.b, Ev.l), FALSE)
  /\ l' = l + 1 /\ UNCHANGED <<sid, buf>>

\* Reading, then encoding the result (P03).
Reencode ==
  /\ IsOp("reenc")
  /\ IsOk(Ev.r) => /\ IsOk(Ev.w)
                   /\ Ev.w.b = Ev.b
                   /\ Enc(V(Ev.r.v)) = Ev.b
  /\ l' = l + 1 /\ UNCHANGED <<sid, buf>>

\* Encoding, then reading the bytes back under the same limit (P03).
Reread ==
  /\ IsOp("reread")
  /\ IsOk(Ev.w) => /\ IsOk(Ev.r)
                   /\ V(Ev.r.v) = Canon(V(Ev.v))
                   /\ Ev.w.b = Enc(V(Ev.v))
  /\ l' = l + 1 /\ UNCHANGED <<sid, buf>>

\* Appending a value to the session's buffer.
IsPrefixOf(p, b) == Len(p) <= Len(b) /\ SubSeq(b, 1, Len(p)) = p
WriteOk ==
  /\ IsOp("write") /\ IsOk(Ev.r)
  /\ LET add == IF PROP = "P05" THEN Ev.add ELSE Enc(V(Ev.v)) IN
     /\ EncErrs(V(Ev.v), Ev.l) = {}
     /\ Ev.keep              \* the bytes already there are untouched
     /\ Ev.add = add         \* and these were appended
     /\ Ev.len = Len(buf) + Len(add)
     /\ buf' = buf \o add
  /\ l' = l + 1 /\ UNCHANGED sid
\* A refused write: what was there stays; what follows it is unspecified.
WriteRefused ==
  /\ IsOp("write") /\ IsErr(Ev.r)
  /\ IF PROP = "P09" THEN EncErrs(V(Ev.v), Ev.l) # {}
     ELSE Ev.r.e \in EncErrs(V(Ev.v), Ev.l)
  /\ Ev.keep
  /\ Ev.len = Len(buf) + Len(Ev.add)
  /\ buf' = buf \o Ev.add
  /\ l' = l + 1 /\ UNCHANGED sid

\* The caller starts over with an empty buffer.
Clear ==
  /\ IsOp("clear")
  /\ buf' = <<>>
  /\ l' = l + 1 /\ UNCHANGED sid

\* The whole buffer as the caller sees it.
Inspect ==
  /\ IsOp("buf")
  /\ Ev.b = buf
  /\ l' = l + 1 /\ UNCHANGED <<sid, buf>>

\* Comparing two values.
Compare ==
  /\ IsOp("cmp")
  /\ LET c == Cmp(Ev.a, Ev.b) IN
     /\ Ev.c = c /\ Ev.rc = -c /\ Ev.pc = c
     /\ Ev.eq = (c = 0)
     /\ (/\ Canon(Ev.a) = Ev.a /\ Canon(Ev.b) = Ev.b
         /\ ~HasDup(Ev.a) /\ ~HasDup(Ev.b)) => LexCmp(Enc(Ev.a), Enc(Ev.b)) = c
  /\ l' = l + 1 /\ UNCHANGED <<sid, buf>>

\* Sorting values.
Sorted ==
  /\ IsOp("sort")
  /\ \A i \in 1..(Len(Ev.out) - 1) : Cmp(Ev.out[i], Ev.out[i + 1]) <= 0
  /\ Len(Ev.out) = Len(Ev.inp)
  /\ \A i \in 1..Len(Ev.inp) : Cardinality({j \in 1..Len(Ev.inp) : Ev.inp[j] = Ev.inp[i]})
                             = Cardinality({j \in 1..Len(Ev.out) : Ev.out[j] = Ev.inp[i]})
  /\ l' = l + 1 /\ UNCHANGED <<sid, buf>>

\* The C entry point: zero iff non-strict decoding within 64 levels succeeds.
Ffi ==
  /\ IsOp("ffi")
  /\ Ev.ret = (IF DecodeLenient(Ev.b, 64).e = "" THEN 0 ELSE 1)
  /\ l' = l + 1 /\ UNCHANGED <<sid, buf>>

\* Building a value with a program of constructor calls.
Build ==
  /\ IsOp("build")
  /\ LET v == Run(Ev.prog)[1] IN
       IsOk(Ev.r) /\ V(Ev.r.v) = v /\ V(Ev.r.o) = v /\ Ev.r.label = Label(v)
  /\ l' = l + 1 /\ UNCHANGED <<sid, buf>>
SimpleNumber ==
  /\ IsOp("simple")
  /\ Ev.r = FromNumber(Ev.n)
  /\ l' = l + 1 /\ UNCHANGED <<sid, buf>>
\* Asking a sorted map for sorted keys.
Destructured ==
  /\ IsOp("destructure")
  /\ LET p == PeekAll(Ev.m, Ev.calls) IN
       /\ Ev.out = p.out
       /\ Ev.rest = p.rest
       /\ Ev.viamacro # <<>> => Ev.viamacro = p.out
  /\ l' = l + 1 /\ UNCHANGED <<sid, buf>>

\* Asserting that keys are in order.
SortedKeys ==
  /\ IsOp("sortedkeys")
  /\ Ev.r = (\A i \in 1..(Len(Ev.keys) - 1) : Cmp(Ev.keys[i], Ev.keys[i + 1]) < 0)
  /\ l' = l + 1 /\ UNCHANGED <<sid, buf>>

\* A consumed session.
Finished == l > Len(Evs) /\ UNCHANGED vars

Next == Clear \/ Read \/ ReadBoth \/ Reencode \/ Reread \/ WriteOk \/ WriteRefused \/ Inspect \/ Compare
        \/ Sorted \/ Ffi \/ Build \/ SimpleNumber \/ Destructured \/ SortedKeys \/ Finished

Spec == Init /\ [][Next]_vars
=============================================================================
