--------------------------------- MODULE Dataset ---------------------------------
(* A dataset of n rows and its random epochs.  State: the batches of the most recent
   initialisation (<<>> before the first one).  Rows are numbered from 0. *)
EXTENDS Integers, Sequences, FiniteSets, Clauses

DInit(c) == [perm |-> <<>>, B |-> 0, seen |-> {}]
SetOf(s) == {s[i] : i \in 1..Len(s)}
Distinct(s) == Cardinality(SetOf(s)) = Len(s)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Partition(perm, B, n) ==
  << <<"one batch per whole multiple of the batch size", Len(perm) = n \div B>>,
     <<"every batch has the batch size", \A i \in 1..Len(perm) : Len(perm[i]) = B>>,
     <<"batches are disjoint, rows distinct", Distinct(Flat(perm))>>,
     <<"batches cover the first rows", SetOf(Flat(perm)) = 0..(B * (n \div B) - 1)>> >>

\* images as integers: x, y are h x w sequences of pixel codes, 0 = painted
PaintOk(x, y, s) ==
  LET h == Len(x)  w == Len(x[1]) IN
  \E i \in 0..(h - s), j \in 0..(w - s) :
     \A a \in 1..h, b \in 1..w :
        y[a][b] = IF a > i /\ a <= i + s /\ b > j /\ b <= j + s THEN 0 ELSE x[a][b]
DownOk(x, y) ==
  \E r \in {4, 8} :
     \A a \in 1..Len(x), b \in 1..Len(x[1]) :
        LET p == r * ((a - 1) \div r)  q == r * ((b - 1) \div r) IN
        /\ y[a][b] = y[p + 1][q + 1]
        /\ \E i, j \in 1..r : y[a][b] = x[p + i][q + j]

DClauses(c, s, e) ==
  CASE e.e = "init" -> Partition(e.perm, e.B, c.n)
    [] e.e = "enum" ->
         << <<"an epoch is under way", s.perm # <<>> >>,
            <<"exactly the rows of this batch of the latest epoch", e.rows = s.perm[e.i + 1]>> >>
    [] e.e = "enumold" -> << <<"exactly the rows of the batch asked for", e.rows = e.want>> >>
    [] e.e = "subset" ->
         << <<"as many rows as asked for", Len(e.rows) = e.B>>,
            <<"distinct rows", Distinct(e.rows)>>,
            <<"rows of the set", SetOf(e.rows) \subseteq 0..(c.n - 1)>>,
            <<"two dimensional at least", e.ndim >= 2>> >>
    [] e.e = "pair" ->
         << <<"a row of the data", e.row \in 0..(c.n - 1)>>,
            <<"the corrupted image is made from its row", IF e.task = "paint" THEN PaintOk(e.x, e.y, e.s) ELSE DownOk(e.x, e.y)>> >>
    [] e.e = "none" -> << <<"no corrupted image without a task", e.none>> >>
    [] e.e = "split" ->   \* rows of the train and test sets of one file
         << <<"unaltered rows", e.clean>>,
            <<"advertised sizes", Len(e.train) = e.ntrain /\ Len(e.test) = e.ntest>>,
            <<"train rows once", Distinct(e.train)>>, <<"test rows once", Distinct(e.test)>>,
            <<"test and train never mix", e.shared => SetOf(e.train) \cap SetOf(e.test) = {}>>,
            <<"the whole file", IF e.shared THEN SetOf(e.train) \cup SetOf(e.test) = 0..(e.total - 1)
                               ELSE SetOf(e.train) = 0..(e.ntrain - 1) /\ SetOf(e.test) = 0..(e.ntest - 1)>> >>
    [] OTHER -> << <<e.clause, FALSE>> >>
DStep(c, s, e) ==
  CASE e.e = "init" -> [perm |-> e.perm, B |-> e.B, seen |-> {}]
    [] e.e = "enum" -> [s EXCEPT !.seen = @ \cup SetOf(e.rows)]
    [] OTHER -> s
DEnd(c, s) == << >>
================================================================================
