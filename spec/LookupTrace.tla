---------------------------- MODULE LookupTrace ----------------------------
(* Recorded lookups against Lookup. *)
EXTENDS Lookup, Json, IOUtils
VARIABLES c, i, st, v
Cases == JsonDeserialize(IOEnv.CASES)
Start(cs) == 0
RECURSIVE AddRows(_, _)
AddRows(parts, k) == IF k = 1 THEN parts[1] ELSE Now(RowsAdd(AddRows(parts, k - 1), parts[k]))
Exec(cs, s, x) ==
  LET ok == [st |-> s, v |-> "ok"]
      bad(why) == [st |-> s, v |-> why \o " (" \o x.op \o ", " \o x.how \o ")"]
      must(p, why) == IF p THEN ok ELSE bad(why)
      refused == x.exc \in {"IndexError", "ValueError"}
      fine == IF x.exc # "" THEN bad("raised " \o x.exc) ELSE IF x.dirty # <<>> THEN bad("modified " \o x.dirty[1]) ELSE ok
  IN
  CASE x.op \in {"gather", "embed"} /\ (\E b \in 1..Len(x.idx) : \E k \in 1..Len(x.idx[b]) : ~InTable(x.idx[b][k], Len(x.table))) ->
         must(refused, "id out of range was accepted")
    [] fine.v # "ok" -> fine
    [] x.op = "hash" -> must(x.out = [j \in 1..Len(x.ids) |-> Hash128(x.ids[j], x.seed)], "hash")
    [] x.op = "ngrams" -> must(x.out = NGrams(x.n, x.ids), "ngrams")
    [] x.op = "strings" -> must(x.out = [b \in 1..Len(x.words) |-> [j \in 1..Len(x.words[b]) |-> Signed64(Hash32(x.words[b][j], WZero(4)))]], "string ids")
    [] x.op = "gather" -> must(x.out = Gather(x.table, x.w, x.idx), "rows")
    [] x.op = "scatter" -> must(x.out = RowsAdd(x.table, Scatter(Len(x.table), x.w, x.idx, x.dY)), "added rows")
    \* several batches through one layer, then their callbacks; idx, out, dY of all of them together
    [] x.op = "embed" -> (IF x.out # Gather(x.table, x.w, x.idx) THEN bad("rows")
                          ELSE must(x.grad = Scatter(Len(x.table), x.w, x.idx, x.dY), "gradient"))
    [] x.op = "hashembed" ->
         LET idx == Now([b \in 1..Len(x.ids) |-> HashRows(x.ids[b], x.seed, Len(x.table))]) IN
         IF x.out # Gather(x.table, x.w, idx) THEN bad("rows")
         ELSE must(x.grad = Scatter(Len(x.table), x.w, idx, x.dY), "gradient")
    [] x.op = "remap" -> must(x.out = [j \in 1..Len(x.xs) |-> Remap(x.pairs, x.default, x.xs[j])], "remapped ids")
    [] x.op = "sparse" ->
         LET want == Sparse(x) IN
         IF x.out # want.Y THEN bad("scores") ELSE IF x.dW # want.dW THEN bad("gradient of W") ELSE must(x.db = want.db, "gradient of b")
INSTANCE TraceMachine
=============================================================================
