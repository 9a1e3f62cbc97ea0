---------------------------- MODULE ParticleLaw ----------------------------
(* The exact law of a whole particle filter run on a finite state space, and the
   likelihood it estimates.
   A model m has
     nu     number of hidden states (1..nu)
     p0     initial weights
     P      P[k][u] transition weights out of u at step k
     g      g[k][u] integer density of the k-th measurement given the previous
            state u
   A run with n particles resamples at every step with the given scheme.
   Outcomes are <<final particle tuple, product of the weight sums>>. *)
EXTENDS Resampling

PLSeq(us, x) == [i \in 1..Len(x) |-> us[x[i]]]
Indep(us, rows) == DProduct([i \in 1..Len(us) |-> DWeights(rows[us[i]], Sum(rows[us[i]]))])

PLStep(m, k, scheme, order, us, z) ==
  LET W == [i \in 1..Len(us) |-> m.g[k][us[i]]]
      z2 == z * Sum(W)
  IN IF order = "sel-first"
     THEN DBind(Law(scheme, W), LAMBDA x : DMap(Indep(PLSeq(us, x), m.P[k]), LAMBDA v : <<v, z2>>))
     ELSE DBind(Indep(us, m.P[k]), LAMBDA v : DMap(Law(scheme, W), LAMBDA x : <<PLSeq(v, x), z2>>))

PLRun(m, n, K, scheme, order) ==
  LET RECURSIVE go(_)
      go(k) == IF k = 0
               THEN DMap(DProduct([i \in 1..n |-> DWeights(m.p0, Sum(m.p0))]), LAMBDA v : <<v, 1>>)
               ELSE DBind(go(k - 1), LAMBDA o : PLStep(m, k, scheme, order, o[1], o[2]))
  IN go(K)

\* unnormalised filtering weights after K steps: alpha(u)
Alpha(m, K) ==
  LET RECURSIVE go(_)
      go(k) == IF k = 0 THEN [u \in 1..m.nu |-> Q(m.p0[u], Sum(m.p0))]
               ELSE LET a == TLCEval(go(k - 1)) IN
                    [u \in 1..m.nu |-> RSumSet(1..m.nu, LAMBDA v :
                        RMul(a[v], RMul(R(m.g[k][v]), Q(m.P[k][v][u], Sum(m.P[k][v])))))]
  IN go(K)
Evidence(m, K) == RSumSet(1..m.nu, LAMBDA u : Alpha(m, K)[u])
RECURSIVE IPow(_, _)
IPow(b, e) == IF e = 0 THEN 1 ELSE b * IPow(b, e - 1)

\* the estimate is unbiased for the evidence, and jointly for every filtering weight
UnbiasedRun(m, n, K, scheme, order) ==
  LET d == TLCEval(PLRun(m, n, K, scheme, order))
      a == TLCEval(Alpha(m, K))
  IN /\ DTotal(d) = ROne
     /\ \A u \in 1..m.nu :
          DMean(d, LAMBDA o : Q(o[2] * Count(o[1], u), n * IPow(n, K))) = a[u]
=============================================================================
