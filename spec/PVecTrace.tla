----------------------------- MODULE PVecTrace -----------------------------
(***************************************************************************)
(* Checks histories recorded from the real PersistentVector against PVec:  *)
(* every call's recorded result and new contents must be the ones the      *)
(* machine allows.  A version's contents are recorded as runs <<a, n>> of  *)
(* consecutive values a, a+1, .. modulo M; as Unread if nobody read it.      *)
(***************************************************************************)
EXTENDS PVec, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.VK_TRACE)

VARIABLES t, l, ok

Run(p)       == [k \in 1..p[2] |-> (p[1] + k - 1) % M]
Expand(rs)   == FlattenSeq([k \in 1..Len(rs) |-> Run(rs[k])])

Unread       == <<<<-1, 0>>>>

TInit == vers = <<>> /\ t \in 1..Len(Trace) /\ l = 1 /\ ok = TRUE

TNext == /\ l <= Len(Trace[t].evs)
         /\ ok
         /\ LET e == Trace[t].evs[l]
                r == Eval(vers, e)
            IN /\ ok' = /\ ToJson(r.ret) = ToJson(e.ret)
                        /\ Len(r.new) = Len(e.new)
                        /\ \A k \in 1..Len(r.new) : e.new[k] = Unread \/ r.new[k] = Expand(e.new[k])
               /\ vers' = vers \o r.new
         /\ l' = l + 1
         /\ t' = t

TSpec == TInit /\ [][TNext]_<<vers, t, l, ok>>

\* the recorded call is one the specification allows
Conforms == ok
TPersistent == [][IsPrefix(vers, vers')]_<<vers, t, l, ok>>
=============================================================================
