--------------------------------- MODULE Keys ---------------------------------
(* The life of random keys in one call of a sampler, simulator or loss.
   Keys are numbers.  The caller hands over the root key c.root; keys are derived by
   splitting (or folding), and consumed by draws of the code or by being handed to a
   function of the user.
   Events: split(ks, num, out) (folding is a split named by a negative num), draw(ks, shared),
   user(ks, shared).
     ks lists the keys of the elements of a vectorised draw; shared says that one key
     is used by all elements of an enclosing vectorised map. *)
EXTENDS Integers, Sequences, FiniteSets, Clauses

KInit(c) == [known |-> {c.root}, drawn |-> {}, parents |-> {}, kids |-> {}]

Distinct(q) == Cardinality({q[i] : i \in 1..Len(q)}) = Len(q)
\* what k was already asked for with the same request gives the same answer
Same(s, k, num, out) == \A r \in s.kids : r[1] = k /\ r[2] = num => r[3] = out

KClauses(c, s, e) ==
  CASE e.e = "split" ->
         << <<"key does not descend from the caller's key", \A i \in 1..Len(e.ks) : e.ks[i] \in s.known>>,
            <<"a key used for a draw is also split", \A i \in 1..Len(e.ks) : e.ks[i] \notin s.drawn>>,
            <<"splitting is a function of the key", \A i \in 1..Len(e.ks) : Same(s, e.ks[i], e.num, e.out[i])>> >>
    [] e.e \in {"draw", "user"} ->
         << <<"key does not descend from the caller's key", \A i \in 1..Len(e.ks) : e.ks[i] \in s.known>>,
            <<"one key drawn from for all elements of a vectorised map", ~e.shared>>,
            <<"two elements draw with one key", Distinct(e.ks)>>,
            <<"a key is used for two draws", \A i \in 1..Len(e.ks) : e.ks[i] \notin s.drawn>>,
            <<"a key used for a draw is also split", \A i \in 1..Len(e.ks) : e.ks[i] \notin s.parents>> >>
    [] e.e = "again" -> << <<"a call is a function of its key", e.same>> >>
    [] OTHER -> << <<e.clause, FALSE>> >>

KStep(c, s, e) ==
  CASE e.e = "split" ->
         [s EXCEPT !.known = @ \cup UNION {{e.out[i][j] : j \in 1..Len(e.out[i])} : i \in 1..Len(e.out)},
                   !.parents = @ \cup {e.ks[i] : i \in 1..Len(e.ks)},
                   !.kids = @ \cup {<<e.ks[i], e.num, e.out[i]>> : i \in 1..Len(e.ks)}]
    [] e.e \in {"draw", "user"} -> [s EXCEPT !.drawn = @ \cup {e.ks[i] : i \in 1..Len(e.ks)}]
    [] OTHER -> s
KEnd(c, s) == << <<"the call used its key", c.draws => s.drawn # {}>> >>
===============================================================================
