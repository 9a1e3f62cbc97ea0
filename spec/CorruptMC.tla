-------------------------------- MODULE CorruptMC --------------------------------
(* All small images, squares and reductions: a history of corruptions of one image.
   What may be asked of a corrupted image: painting only removes, the squares lie inside
   and reach every side, reducing twice is reducing once, a reduced image shows only pixels
   of the image, in order. *)
EXTENDS Corrupt
CONSTANTS HMAX, MMAX
VARIABLES h, w, s, x, last, n
vars == <<h, w, s, x, last, n>>
Code(a, b) == << 1 + (a - 1) * 64 + b >>
Init == /\ h \in 1..HMAX /\ w \in 1..HMAX /\ s \in {z \in 1..HMAX : z <= h /\ z <= w}
        /\ x = [a \in 1..h |-> [b \in 1..w |-> Code(a, b)]] /\ last = "none" /\ n = 0
Paint == \E p \in Corners(h, w, s) : x' = Painted(x, p, s) /\ last' = "paint"
Reduce == \E r \in {4, 8} : h >= r /\ w >= r /\ x' = Down(x, r) /\ last' = "down"
Next == n < 2 /\ n' = n + 1 /\ (Paint \/ Reduce) /\ UNCHANGED <<h, w, s>>
Spec == Init /\ [][Next]_vars
Size == H(x) = h /\ \A a \in 1..h : Len(x[a]) = w
Origin == \A a \in 1..h, b \in 1..w : x[a][b] = <<0>> \/ \E i \in 1..h, j \in 1..w : x[a][b] = Code(i, j)
Inside == \A p \in Corners(h, w, s) : p[1] >= 0 /\ p[2] >= 0 /\ p[1] + s <= h /\ p[2] + s <= w
Sides == <<0, 0>> \in Corners(h, w, s) /\ <<h - s, w - s>> \in Corners(h, w, s) /\ <<0, w - s>> \in Corners(h, w, s)
Removed == (last = "paint" /\ n = 1) => Cardinality({q \in (1..h) \X (1..w) : x[q[1]][q[2]] = <<0>>}) = s * s
Idempotent == n = 1 => \A r \in {4, 8} : (last = "down" /\ h >= r /\ w >= r /\ h % r = 0 /\ w % r = 0) => Down(Down(x, r), r) = Down(x, r)
Ordered == \A m \in 4..MMAX, r \in {4, 8} : m >= r =>
             /\ \A i \in 0..(m - 1) : Src(m, r, i) \in 0..(m - 1)
             /\ \A i \in 1..(m - 1) : Src(m, r, i - 1) <= Src(m, r, i)
             /\ Cardinality({Src(m, r, i) : i \in 0..(m - 1)}) = m \div r
             /\ (m % r = 0 => \A i \in 0..(m - 1) : Src(m, r, i) = r * (i \div r) + r \div 2)
================================================================================
