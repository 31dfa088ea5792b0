-------------------------------- MODULE Measure --------------------------------
(* Measuring a list of clusters (C25).  The clusters are taken in list order; *)
(* each is measured from its own galaxies, of which earlier clusters leave    *)
(* something only when masking; a cluster that cannot be measured is kept and *)
(* flagged (catalogue run) or left out (scan).                                *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES input,   \* the list of cluster tags
          pos,     \* how many were processed
          taken,   \* galaxies claimed by earlier clusters
          out      \* rows [tag, id, good, mem]
mvars == <<input, pos, taken, out>>
MInit(list) == input = list /\ pos = 0 /\ taken = {} /\ out = <<>>
(* meas(tag, avail): galaxies measured as members; {} means no detection *)
Process(meas(_, _), ids, masking, omit) ==
  /\ pos < Len(input)
  /\ LET tag == input[pos + 1]
         mem == meas(tag, taken)
         row == [tag |-> tag, id |-> ids[pos + 1], good |-> mem # {}, mem |-> mem]
     IN /\ out' = IF mem = {} /\ omit THEN out ELSE Append(out, row)
        /\ taken' = IF masking THEN taken \cup mem ELSE taken
  /\ pos' = pos + 1
  /\ UNCHANGED input
RowOf(rows, tag) == LET i == {k \in 1..Len(rows) : rows[k].tag = tag} IN IF i = {} THEN {} ELSE {rows[CHOOSE k \in i : TRUE]}
(* an order-preserving selection: rows in the order of the list *)
InListOrder(rows, list) ==
  \A i, j \in 1..Len(rows) : \A a, b \in 1..Len(list) : (i < j /\ rows[i].tag = list[a] /\ rows[j].tag = list[b]) => a < b
===============================================================================
