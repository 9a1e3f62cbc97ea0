--------------------------------- MODULE CorruptX ---------------------------------
(* Laws of the corruptions: corner of the painted square, reduction factor, width of the
   blur (eighths of its range), and of the row they are applied to, independently. *)
EXTENDS Dist
VARIABLE i
X == INSTANCE Corrupt
One(k) == CASE k.what = "paint" -> DMap(DUniform((0..3) \X (0..3)), LAMBDA q : <<X!At3(k.h, k.s, q[1]), X!At3(k.w, k.s, q[2])>>)
            [] k.what = "down" -> DUniform({<<4>>, <<8>>})
            [] k.what = "blur" -> DUniform({<<b>> : b \in 0..7})
            [] k.what = "row" -> DUniform({<<b>> : b \in 0..(k.n - 1)})
            [] k.what = "rowsquare" -> DUniform({<<b>> : b \in 0..(k.n - 1)})
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
\* the parts of a case are independent
LO(d) == TLCEval(DMap(DProduct([j \in 1..Len(d.parts) |-> One(d.parts[j])]), Flat))
INSTANCE LawExport WITH LawOf <- LO
================================================================================
