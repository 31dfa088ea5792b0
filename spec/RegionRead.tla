------------------------------ MODULE RegionRead ------------------------------
(* Reading part of a pixelised galaxy catalogue (C04, C05).                     *)
(* A galaxy is [gid, inside, dist, pix, refmag, chisq, z]: dist is its distance *)
(* to the region, pix the table pixel (file) that contains it, z whether its    *)
(* pixel has a redshift file.                                                   *)
EXTENDS Integers, Sequences, FiniteSets
(* The request: [region, border, slack, cut, lo, hi, cmax, zred]                *)
InCuts(g, q) == q.cut => (g.refmag > q.lo /\ g.refmag < q.hi /\ (q.zred => g.chisq < q.cmax))
Readable(g, q) == q.zred => g.z
(* must be returned; may be returned (within the resolution of the border)      *)
Must(g, q) == /\ Readable(g, q) /\ InCuts(g, q)
              /\ (q.region => (g.inside \/ (q.border > 0 /\ g.dist <= q.border - q.tol)))
May(g, q) == /\ Readable(g, q) /\ InCuts(g, q)
             /\ (q.region => (g.inside \/ (q.border > 0 /\ g.dist <= q.border + q.slack)))
Answer(S, ret, q) == /\ {g \in S : Must(g, q)} \subseteq ret
                     /\ ret \subseteq {g \in S : May(g, q)}
===============================================================================
