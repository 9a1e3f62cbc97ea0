----------------------------- MODULE SmootherLaw -----------------------------
(* Exact law of the smoother's slot choices: u_K uniform, then u_k with probability
   proportional to its density to the selected state.  d[k][x][i]: integer density
   of state x at time k given particle i of time k-1; F[k+1][i]: states of the
   particles.  Exported as the law of the returned state path. *)
EXTENDS Resampling
SMLaw(F, d, K) ==
  LET n == Len(F[1])
      RECURSIVE go(_, _)
      go(k, t) == IF k = 0 THEN DUnit(t)
                  ELSE LET W == [i \in 1..n |-> d[k][F[k][i]][Head(t)]] IN
                       DBind(DMap(DWeights(W, Sum(W)), LAMBDA i : F[k][i]), LAMBDA u : go(k - 1, <<u>> \o t))
  IN DBind(DMap(DUniform(1..n), LAMBDA i : F[K + 1][i]), LAMBDA u : go(K, <<u>>))
=============================================================================
