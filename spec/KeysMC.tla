-------------------------------- MODULE KeysMC --------------------------------
(* Every program of at most STEPS splits and draws that obeys the clauses.  Keys are
   numbered by the place in the lineage tree that they come from; the streams of two
   draws are independent iff neither key is the other nor an ancestor of it. *)
EXTENDS Keys, TLC
CONSTANTS STEPS, NUMS
VARIABLES s, tree, n       \* tree: key -> path from the root
vars == <<s, tree, n>>
C == [root |-> 1, draws |-> FALSE]
Init == s = KInit(C) /\ tree = << <<>> >> /\ n = 0
Legal(e) == Ok(KClauses(C, s, e))
Find(p) == CHOOSE k \in 1..Len(tree) : tree[k] = p
Split(k, num) ==
  LET ps == [j \in 1..num |-> tree[k] \o <<<<num, j>>>>]
      new == {j \in 1..num : \A x \in 1..Len(tree) : tree[x] # ps[j]}
      t2 == IF new = {} THEN tree ELSE tree \o ps
      out == [j \in 1..num |-> CHOOSE x \in 1..Len(t2) : t2[x] = ps[j]]
      e == [e |-> "split", ks |-> <<k>>, num |-> num, out |-> <<out>>, shared |-> FALSE]
  IN Legal(e) /\ s' = KStep(C, s, e) /\ tree' = t2
Draw(ks) == LET e == [e |-> "draw", ks |-> ks, shared |-> FALSE] IN
            Legal(e) /\ s' = KStep(C, s, e) /\ UNCHANGED tree
Next == /\ n < STEPS
        /\ n' = n + 1
        /\ \/ \E k \in 1..Len(tree), num \in NUMS : Split(k, num)
           \/ \E k \in 1..Len(tree) : Draw(<<k>>)
           \/ \E k, j \in 1..Len(tree) : Draw(<<k, j>>)
Spec == Init /\ [][Next]_vars
Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Antichain == \A a, b \in s.drawn : a # b => ~Prefix(tree[a], tree[b])
Lineage == s.drawn \subseteq s.known /\ s.known \subseteq 1..Len(tree)
===============================================================================
