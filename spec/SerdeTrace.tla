------------------------------ MODULE SerdeTrace ------------------------------
(***************************************************************************)
(* Sessions recorded from the real serde layer, checked event by event.    *)
(* An event that no action explains is reported as a deadlock.             *)
(***************************************************************************)
EXTENDS CborSerde

Sessions == ndJsonDeserialize(IOEnv.TRACE)
PROP == IOEnv.PROP

VARIABLES sid, l
vars == <<sid, l>>
Evs == Sessions[sid].evs
Ev == Evs[l]
IsOp(o) == l <= Len(Evs) /\ Ev.op = o
Init == sid \in 1..Len(Sessions) /\ l = 1

TyOf == TLCEval(LET at == TLCEval([i \in 1..Len(AllTypes) |-> AllTypes[i].id]) IN
        [id \in {at[i] : i \in 1..Len(at)} |-> AllTypes[CHOOSE i \in 1..Len(at) : at[i] = id].ty])

\* The real outcome r is one that the specified outcome w admits.
Admits(ty, w, r) ==
  /\ r.k # "panic"
  /\ CASE PROP = "P06" -> TRUE
       [] w.k = "any" -> TRUE
       [] w.k = "ok" -> r.k = "ok" /\ Same(ty, w.x, IF ty.t = "dyn" THEN Unflat(r.x) ELSE r.x)
       [] OTHER -> r.k = "err" /\ (PROP = "P28" => r.e \in w.es)
OneOf(s, p(_)) == Len(s) = 1 => p(s[1])

Serialized ==
  /\ IsOp("ser")
  /\ LET ty == TyOf[Ev.ty]
         v == SerT(ty, Ev.x)
         b == SerB(ty, Ev.x)
         value == IF v.k = "ok" THEN Ev.v.k = "ok" /\ Ev.v.x[1] = v.x[1] /\ Canon(Ev.v.x) = Canon(v.x) ELSE Ev.v.k = "err"
         why(w, r) == w.k = "err" => r.k = "err" /\ r.e \in w.es
         written == IF b.k = "ok" THEN Ev.b.k = "ok" /\ Ev.b.x = b.x ELSE Ev.b.k = "err"
         back(w, r) == IF v.k # "ok" \/ HasDup(v.x) THEN r.k # "panic"
                    ELSE IF LosslessS(ty) THEN r.k = "ok" /\ Same(ty, r.x, Ev.x)
                    ELSE Admits(ty, DesT(ty, w), r)
     IN /\ PROP = "P19" => value /\ written
        /\ PROP = "P28" => why(v, Ev.v) /\ why(b, Ev.b)
        /\ PROP = "P20" => OneOf(Ev.rv, LAMBDA r : back(Ev.v.x, r)) /\ OneOf(Ev.rs, LAMBDA r : back(Canon(v.x), r))
        /\ PROP = "P06" => OneOf(Ev.rv, LAMBDA r : r.k # "panic") /\ OneOf(Ev.rs, LAMBDA r : r.k # "panic")

Deserialized ==
  /\ IsOp("des")
  /\ PROP # "P19" => Admits(TyOf[Ev.ty], DesT(TyOf[Ev.ty], Ev.v), Ev.r)

Slice ==
  /\ IsOp("slice")
  /\ PROP # "P19" => Admits(TyOf[Ev.ty], DesB(TyOf[Ev.ty], Ev.b), Ev.r)

Next == \/ l <= Len(Evs) /\ (Serialized \/ Deserialized \/ Slice) /\ l' = l + 1 /\ UNCHANGED sid
        \/ l > Len(Evs) /\ UNCHANGED vars
=============================================================================
