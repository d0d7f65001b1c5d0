-------------------------------- MODULE Once --------------------------------
(***************************************************************************)
(* One-shot effects, each shared by any number of runs: an effect begins at *)
(* most once, only when some run of it has been asked for, and every run of *)
(* it answers with what that one execution gave (or fails if it failed).    *)
(* The computation of effect j may itself run other effects; its runs carry *)
(* the name Fut(j) and lie between the effect's begin and its end.          *)
(*   ph[k]: <<"none">>, <<"begun">>, <<"done", v>>, <<"broke">>             *)
(*   in:    <<t, k>> for every t inside a run of effect k                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Failed == -1
Fut(j) == 100 + j
Cfg0(depth) == [ph |-> [k \in 1..depth |-> <<"none">>], in |-> {}]
Quiet(c, j) == \A r \in c.in : r[1] # Fut(j)
Alive(c, t) == \A j \in DOMAIN c.ph : t = Fut(j) => c.ph[j] = <<"begun">>
Match(c, e) ==
  CASE e.op = "call"  -> IF <<e.t, e.k>> \notin c.in /\ Alive(c, e.t) THEN {[c EXCEPT !.in = @ \cup {<<e.t, e.k>>}]} ELSE {}
    [] e.op = "begin" -> IF c.ph[e.k] = <<"none">> /\ \E r \in c.in : r[2] = e.k THEN {[c EXCEPT !.ph[e.k] = <<"begun">>]} ELSE {}
    [] e.op = "end"   -> IF c.ph[e.k] = <<"begun">> /\ Quiet(c, e.k) THEN {[c EXCEPT !.ph[e.k] = <<"done", e.v>>]} ELSE {}
    [] e.op = "break" -> IF c.ph[e.k] = <<"begun">> /\ Quiet(c, e.k) THEN {[c EXCEPT !.ph[e.k] = <<"broke">>]} ELSE {}
    [] e.op = "ret"   -> IF <<e.t, e.k>> \in c.in /\ (c.ph[e.k] = <<"done", e.v>> \/ (e.v = Failed /\ c.ph[e.k] = <<"broke">>))
                         THEN {[c EXCEPT !.in = @ \ {<<e.t, e.k>>}]} ELSE {}
    [] OTHER -> {}
=============================================================================
