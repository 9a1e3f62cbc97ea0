---------------------------------- MODULE Masks ----------------------------------
(* Restoration masks.  An image is H x W pixels with C channels; pixel (i, j) has index
   i * W + j.  A mask is the pair of sequences (unobs, obs) of pixel indices. *)
EXTENDS Integers, Sequences, FiniteSets, Clauses

SetOf(s) == {s[i] : i \in 1..Len(s)}
Pixels(c) == 0..(c.H * c.W - 1)
Row(c, p) == p \div c.W
Col(c, p) == p % c.W
Partition(c, m) ==
  << <<"unobserved indices are distinct", Cardinality(SetOf(m.unobs)) = Len(m.unobs)>>,
     <<"observed indices are distinct", Cardinality(SetOf(m.obs)) = Len(m.obs)>>,
     <<"disjoint", SetOf(m.unobs) \cap SetOf(m.obs) = {}>>,
     <<"all pixels", SetOf(m.unobs) \cup SetOf(m.obs) = Pixels(c)>> >>
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Square(c, S) ==
  LET p == MinOf(S)  r == Row(c, p)  q == Col(c, p) IN
  /\ r + c.s <= c.H /\ q + c.s <= c.W
  /\ S = {(r + a) * c.W + q + b : a \in 0..(c.s - 1), b \in 0..(c.s - 1)}
BlockOf(c, p) == << Row(c, p) \div c.s, Col(c, p) \div c.s >>
Blocks(c) == (0..(c.H \div c.s - 1)) \X (0..(c.W \div c.s - 1))
OnePerBlock(c, S) == Cardinality(S) = Cardinality(Blocks(c)) /\ {BlockOf(c, p) : p \in S} = Blocks(c)
Centres(c) == {(b[1] * c.s + c.s \div 2) * c.W + b[2] * c.s + c.s \div 2 : b \in Blocks(c)}
Geometry(c, m) ==
  CASE c.task = "inpaint" ->
         << <<"hides exactly one square inside the image", m.unobs # <<>> /\ Square(c, SetOf(m.unobs))>> >>
    [] OTHER ->
         << <<"observes one pixel of every block", OnePerBlock(c, SetOf(m.obs))>>,
            <<"the centre pixel when not random", c.random \/ SetOf(m.obs) = Centres(c)>> >>

\* an image is a sequence (over pixels) of sequences (over channels) of integers
Take(img, inds) == [i \in 1..Len(inds) |-> img[inds[i] + 1]]
Put(x, y, m, n) == [p \in 1..n |->
                     IF \E i \in 1..Len(m.unobs) : m.unobs[i] = p - 1
                     THEN x[CHOOSE i \in 1..Len(m.unobs) : m.unobs[i] = p - 1]
                     ELSE y[CHOOSE i \in 1..Len(m.obs) : m.obs[i] = p - 1]]
\* the same with the positions looked up in a table
Code(c, k, p) == k * 100000 + p * 8       \* channel b of pixel p of image k has value Code + b
CodeImg(c, k) == [p \in 1..(c.H * c.W) |-> [b \in 1..c.C |-> Code(c, k, p - 1) + b - 1]]

MInit(c) == [m |-> [unobs |-> <<>>, obs |-> <<>>], has |-> FALSE]
MClauses(c, s, e) ==
  CASE e.e = "mask" -> Partition(c, e) \o Geometry(c, e) \o
         << <<"as many unobserved pixels as advertised", <<Len(e.unobs), c.C>> = e.shape>> >>
    [] e.e = "unpack" ->     \* of image k among the leading axes
         << <<"a mask is given", s.has>>,
            <<"unobserved pixels in mask order, all channels", e.x = Take(CodeImg(c, e.k), s.m.unobs)>>,
            <<"observed pixels in mask order, all channels", e.y = Take(CodeImg(c, e.k), s.m.obs)>> >>
    [] e.e = "shape" -> << <<"leading axes and channels are kept", e.got = e.want>> >>
    [] e.e = "concat" -> << <<"concatenation restores the image", e.img = CodeImg(c, e.k)>> >>
    [] e.e = "fill" ->       \* parts written under a mask: x part all 1, y part all 2
         << <<"each part goes to its own pixels", \A p \in 1..Len(e.img) : e.img[p] = IF (p - 1) \in SetOf(s.m.unobs) THEN 1 ELSE 2>> >>
    [] e.e = "sample" ->
         << <<"a row of the data", e.k \in 0..(c.n - 1)>>,
            <<"the true image", e.img = CodeImg(c, e.k)>>,
            <<"the observed part under the returned mask", e.y = Take(CodeImg(c, e.k), s.m.obs)>> >>
    [] OTHER -> << <<e.clause, FALSE>> >>
MStep(c, s, e) == IF e.e = "mask" THEN [m |-> [unobs |-> e.unobs, obs |-> e.obs], has |-> TRUE] ELSE s
MEnd(c, s) == << >>
================================================================================
