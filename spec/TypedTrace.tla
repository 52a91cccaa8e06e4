------------------------------ MODULE TypedTrace ------------------------------
(***************************************************************************)
(* Sessions recorded from the real typed API (data of the types of the     *)
(* catalogue encoded, edited values and bytes decoded), checked event by   *)
(* event.  An event that no action explains is reported as a deadlock.     *)
(***************************************************************************)
EXTENDS CborTypes

Sessions == ndJsonDeserialize(IOEnv.TRACE)
PROP == IOEnv.PROP
Limit == 64    \* when decoding bytes into types

VARIABLES sid, l
vars == <<sid, l>>
Evs == Sessions[sid].evs
Ev == Evs[l]
IsOp(o) == l <= Len(Evs) /\ Ev.op = o
Init == sid \in 1..Len(Sessions) /\ l = 1

TyOf == TLCEval(LET at == TLCEval([i \in 1..Len(AllTypes) |-> AllTypes[i].id]) IN
        [id \in {at[i] : i \in 1..Len(at)} |-> AllTypes[CHOOSE i \in 1..Len(at) : at[i] = id].ty])

\* The real outcome r is one that the specified outcome w admits.
Admits(ty, w, r) ==
  /\ r.k # "panic"
  /\ CASE PROP = "P06" -> TRUE
       [] w.k = "any" -> TRUE
       [] w.k = "ok" -> r.k = "ok" /\ Same(ty, w.x, r.x)
       [] OTHER -> r.k = "err" /\ r.e \in w.es

Encode ==
  /\ IsOp("enc")
  /\ LET ty == TyOf[Ev.ty]
         v == EncT(ty, Ev.x)
         same(w) == IF w[1] = 5 THEN Canon(w) = Canon(v) ELSE w[1] = v[1] /\ Canon(w) = Canon(v)
         value == same(Ev.v)
         written == IF HasDup(v) THEN Ev.b = "dup" ELSE Ev.b = Enc(v)
         maybe == IF OptNone(ty, Ev.x) THEN Ev.o = <<>> ELSE Len(Ev.o) = 1 /\ same(Ev.o[1])
         entries == "m" \in DOMAIN Ev => Len(Ev.m) = 2 /\ same(Ev.m[1]) /\ same(Ev.m[2])
         back == "rt" \in DOMAIN Ev => /\ Admits(ty, IF Depth(v) > Limit THEN Er({"ParsingFailed"}) ELSE DecD(ty, Canon(v)), Ev.rt)
                                       /\ Lossless(ty, TRUE) /\ Depth(v) <= Limit => Ev.rt.k = "ok"
     IN CASE PROP \in {"P06", "P12"} -> TRUE
          [] PROP = "P17" -> value /\ entries
          [] PROP \in {"P23", "P27"} -> value /\ written
          [] PROP = "P24" -> back
          [] OTHER -> value /\ written /\ maybe /\ entries

Decoded ==
  /\ IsOp("dec")
  /\ PROP \notin {"P17", "P23", "P24"} =>
     LET ty == TyOf[Ev.ty] IN
     /\ Admits(ty, DecD(ty, Ev.v), Ev.r)
     /\ Admits(ty, DecT(ty, Ev.v), Ev.r2)

\* Decoding bytes is decoding what they denote.
Slice ==
  /\ IsOp("slice")
  /\ PROP \notin {"P17", "P23", "P24"} =>
     LET ty == TyOf[Ev.ty]
         s == Decode(Ev.b, Limit, TRUE)
         n == Decode(Ev.b, Limit, FALSE)
         want(d) == IF d.e # "" THEN Er({"ParsingFailed"}) ELSE DecD(ty, d.v)
     IN Admits(ty, want(s), Ev.rs) /\ Admits(ty, want(n), Ev.rl)

Next == \/ l <= Len(Evs) /\ (Encode \/ Decoded \/ Slice) /\ l' = l + 1 /\ UNCHANGED sid
        \/ l > Len(Evs) /\ UNCHANGED vars
=============================================================================
