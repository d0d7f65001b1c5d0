------------------------------- MODULE ContMC -------------------------------
(* All continuation programs up to a size, each run by the machine under      *)
(* several final continuations in turn and written out for the real code.     *)
EXTENDS Cont, Json, CSV, IOUtils, TLC
CONSTANTS MaxSize, Kind
Out == IOEnv.VK_OUT
VARIABLES prog, m, runs
vars == <<prog, m, runs>>
Fins == IF Kind = "contO" THEN <<"k", "n", "j">> ELSE <<"k", "j">>

Atoms(v, j) == {<<"pure", "a">>, <<"eff", "1">>, <<"abort", "z">>}
               \cup (IF Kind = "contO" THEN {<<"abort", "!">>} ELSE {})
               \cup {<<"var", i>> : i \in {k \in 1..v : k = v}}
RECURSIVE Progs(_, _, _)
Progs(k, v, j) ==
  IF k = 1 THEN Atoms(v, j)
  ELSE {<<"fmap", "f", p>> : p \in Progs(k - 1, v, j)}
       \cup {<<"cc", p>> : p \in Progs(k - 1, v, j + 1)}
       \cup {<<"wrap", "w", p>> : p \in Progs(k - 1, v, j)}
       \cup {<<"same", p>> : p \in Progs(k - 1, v, j)}
       \cup UNION {{<<"esc", i, p>> : p \in Progs(k - 1, v, j)} : i \in 1..j}
       \cup UNION {{<<"bind", p, q>> : p \in Progs(i, v, j), q \in Progs(k - 1 - i, v + 1, j)} : i \in 1..(k - 2)}
       \cup UNION {{<<"ap", p, q>> : p \in Progs(i, v, j), q \in Progs(k - 1 - i, v, j)} : i \in 1..(k - 2)}
       \cup UNION {{<<"twice", p, q>> : p \in Progs(i, v, j), q \in Progs(k - 1 - i, v, j)} : i \in 1..(k - 2)}

MCInit == /\ \E k \in 1..MaxSize : prog \in Progs(k, 0, 0)
          /\ m = LoadF(prog, Fins[1]) /\ runs = <<>>
Case == [m |-> Kind, p |-> prog, runs |-> runs']
Again == LoadF(prog, Fins[Len(runs) + 1])
MCNext ==
  /\ prog' = prog
  /\ IF ~Done(m) THEN /\ m' = StepM(m)
                      /\ runs' = IF Done(m') THEN Append(runs, [k |-> m.f, ans |-> m'.ans, log |-> m'.log]) ELSE runs
                      /\ (Done(m') /\ Len(runs') = Len(Fins)) => CSVWrite("%1$s", <<ToJson(Case)>>, Out)
     ELSE /\ Len(runs) < Len(Fins) /\ m' = Again /\ runs' = runs
MCSpec == MCInit /\ [][MCNext]_vars

AgreesDen == (Done(m) /\ NoTwice(prog)) => [ans |-> m.ans, log |-> m.log] = DenMeaning(prog, m.f)
\* what a run does owes nothing to the runs before it
NoMemory == Done(m) => LET n == RunAll(LoadF(prog, m.f)) IN n.ans = m.ans /\ n.log = m.log
Emptied == Done(m) => m.mk = <<>>
RECURSIVE NoEsc(_)
NoEsc(p) ==
  CASE p[1] \in {"pure", "var", "eff", "abort"} -> TRUE
    [] p[1] \in {"fmap", "wrap"} -> NoEsc(p[3])
    [] p[1] \in {"cc", "same"} -> NoEsc(p[2])
    [] p[1] \in {"bind", "ap", "twice"} -> NoEsc(p[2]) /\ NoEsc(p[3])
    [] p[1] = "esc" -> FALSE
First == m = Load(prog) /\ runs = <<>>
Laws == First =>
  /\ Meaning(<<"bind", prog, <<"var", 1>>>>) = Meaning(prog)
  /\ Meaning(<<"fmap", "f", prog>>) = Meaning(<<"bind", prog, <<"fmap", "f", <<"var", 1>>>>>>)
  /\ prog[1] = "bind" => Meaning(<<"bind", <<"bind", prog[2], prog[3]>>, <<"fmap", "h", <<"var", 1>>>>>>)
                         = Meaning(<<"bind", prog[2], <<"bind", prog[3], <<"fmap", "h", <<"var", 2>>>>>>>>)
  \* an unused escape changes nothing; escaping at once is returning
  /\ NoEsc(prog) => /\ Meaning(<<"cc", <<"esc", 1, prog>>>>) = Meaning(prog)
                     /\ Meaning(<<"cc", prog>>) = Meaning(prog)
  \* what follows an escape is discarded
  /\ Meaning(<<"cc", <<"bind", <<"esc", 1, <<"pure", "a">>>>, prog>>>>) = Meaning(<<"pure", "a">>)
=============================================================================
