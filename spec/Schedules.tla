------------------------------ MODULE Schedules ------------------------------
(***************************************************************************)
(* Schedules (C14).  A schedule is a chain of nodes, node j wrapping node  *)
(* j+1; rates are in fixed point (Fixed), steps are integers.              *)
(*   [k |-> "constant", a]              [k |-> "decaying", a, b, t]        *)
(*   [k |-> "compounding", a, b, c, n]  (start, stop, factor, offset n)    *)
(*   [k |-> "slanted", a, n, cut, c, r, t]  (rate, steps, cut, 1/fraction) *)
(*   [k |-> "warmup", a, n, m]          [k |-> "cyclic", a, b, n]          *)
(*   [k |-> "then", a, n]               constant a for n steps, then j+1   *)
(*   [k |-> "plateau", n, c]            patience n, scale c, of j+1        *)
(*   [k |-> "gen", vals, ends]          values of a generator              *)
(* Each node has a state (0 unless it is a plateau or a generator).        *)
(***************************************************************************)
EXTENDS Fixed

FInt(n) == n * S

\* stateless nodes -------------------------------------------------------
Clip(v, lo, hi) == IF lo > hi THEN FMax(v, hi) ELSE FMin(v, hi)
RECURSIVE Comp(_, _)
Comp(x, n) == IF n = 0 THEN Clip(x.a, x.a, x.b) ELSE Clip(FMul(Comp(x, n - 1), x.c), x.a, x.b)
Slanted(x, step) ==
  LET ts == FInt(step + 1) + x.t
      cut == FInt(x.cut)
      p == IF ts < cut THEN FDiv(ts, cut) ELSE S - FDiv(ts - cut, FMul(cut, x.c - S))
  IN FDiv(FMul(x.a, S + FMul(p, FInt(x.r - 1))), FInt(x.r))
Warmup(x, step) ==
  FMul(x.a, IF step < x.n THEN FDiv(FInt(step), FInt(FMax(1, x.n)))
            ELSE FMax(0, FDiv(FInt(x.m - step), FInt(FMax(1, x.m - x.n)))))
Cyclic(x, step) ==
  LET it == step + 1
      cycle == 1 + it \div (2 * x.n)
      d == FAbs(FDiv(FInt(it), FInt(x.n)) - FInt(2 * cycle - 1))
  IN x.a + FMul(x.b - x.a, FMax(0, S - d))
Stateless(x, step) ==
  CASE x.k = "constant" -> x.a
    [] x.k = "decaying" -> FDiv(x.a, S + FMul(x.b, FInt(step) + x.t))
    [] x.k = "compounding" -> Comp(x, step + x.n)
    [] x.k = "slanted" -> Slanted(x, step)
    [] x.k = "warmup" -> Warmup(x, step)
    [] x.k = "cyclic" -> Cyclic(x, step)

\* plateau ---------------------------------------------------------------
\* score is <<>> or <<step of the evaluation, score>>
NoPlateau == [best |-> <<>>, at |-> <<>>, bad |-> 0, count |-> 0]
PlateauStale(q, score) == score # <<>> /\ q.best # <<>> /\ score[2] <= q.best[1] /\ score[1] < q.at[1]
PlateauNext(q, score, patience) ==
  IF score = <<>> THEN q
  ELSE IF q.best = <<>> \/ score[2] > q.best[1] THEN [q EXCEPT !.best = <<score[2]>>, !.at = <<score[1]>>, !.bad = 0]
  ELSE IF score[1] = q.at[1] THEN q
  ELSE IF q.bad + 1 = patience THEN [q EXCEPT !.at = <<score[1]>>, !.bad = 0, !.count = @ + 1]
  ELSE [q EXCEPT !.at = <<score[1]>>, !.bad = @ + 1]

\* generators ------------------------------------------------------------
\* the value at step s; after the end (where it ends) the last one
GenAt(x, s) == x.vals[IF s + 1 <= Len(x.vals) THEN s + 1 ELSE Len(x.vals)]

\* the chain -------------------------------------------------------------
InitState(ch) == [j \in 1..Len(ch) |-> IF ch[j].k = "plateau" THEN NoPlateau ELSE IF ch[j].k = "gen" THEN [last |-> -1] ELSE [none |-> 0]]
\* result of querying node j at a step: [v |-> value, ok |-> TRUE, st |-> states afterwards]
RECURSIVE Query(_, _, _, _, _)
Query(ch, st, j, step, score) ==
  LET x == ch[j] IN
  CASE x.k = "then" -> IF step < x.n THEN [v |-> x.a, ok |-> TRUE, st |-> st] ELSE Query(ch, st, j + 1, step, score)
    [] x.k = "plateau" ->
         (IF PlateauStale(st[j], score) THEN [v |-> 0, ok |-> FALSE, st |-> st]
          ELSE LET q == PlateauNext(st[j], score, x.n)
                   r == Query(ch, [st EXCEPT ![j] = q], j + 1, step, score)
               IN IF ~r.ok THEN r ELSE [r EXCEPT !.v = FMul(FPow(x.c, q.count), r.v)])
    [] x.k = "gen" -> (IF step < st[j].last THEN [v |-> 0, ok |-> FALSE, st |-> st]
                       ELSE [v |-> GenAt(x, step), ok |-> TRUE, st |-> [st EXCEPT ![j].last = step]])
    [] OTHER -> [v |-> Stateless(x, step), ok |-> TRUE, st |-> st]
=============================================================================
