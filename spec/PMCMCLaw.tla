------------------------------ MODULE PMCMCLaw ------------------------------
(* The exact transition law of a particle MCMC kernel on finite spaces.
   m.q[v]  integer weight of the path v (sequence of v_0..v_K in filter order) under the
           path sampler, m.vs the sequence of the paths,
   m.r[v0] weights of the reference law of u_0 given v_0,
   m.T[k][v][u], m.G[k][v][u][v'] as in GibbsLaw.
   The state is <<u, z, i>>: terminal particle, product of weight sums, path index. *)
EXTENDS ParticleLaw
PKModel(m, K, v) ==
  [nu |-> 2, p0 |-> m.r[v[1]], P |-> [k \in 1..K |-> m.T[k][v[k]]],
   g |-> [k \in 1..K |-> [u \in 1..2 |-> m.G[k][v[k]][u][v[k + 1]]]]]
\* the proposal: path, one filter run, and one of its last particles with equal chances
PKProp(m, n, K, scheme) ==
  DBind(DWeights(m.q, Sum(m.q)), LAMBDA i :
        DBind(PLRun(PKModel(m, K, m.vs[i]), n, K, scheme, "sel-first"), LAMBDA o :
              DMap(DUniform(1..n), LAMBDA a : <<o[1][a], o[2], i>>)))
\* what a kernel would propose that always takes the same slot
PKPropFixed(m, n, K, scheme, which) ==
  DBind(DWeights(m.q, Sum(m.q)), LAMBDA i :
        DMap(PLRun(PKModel(m, K, m.vs[i]), n, K, scheme, "sel-first"), LAMBDA o : <<o[1][which], o[2], i>>))
PKKernel(prop, x) ==
  DBind(prop, LAMBDA y : IF y[2] >= x[2] THEN DUnit(<<TRUE, y>>)
        ELSE IF y[2] = 0 THEN DUnit(<<FALSE, x>>)
        ELSE LET a == Q(y[2], x[2]) IN [b \in {<<TRUE, y>>, <<FALSE, x>>} |-> IF b[1] THEN a ELSE RSub(ROne, a)])
\* the law proportional to proposal times likelihood estimate is invariant (detailed balance)
PKBalance(m, n, K, scheme) ==
  LET d == TLCEval(PKProp(m, n, K, scheme))
      S == DSupport(d)
      ker == TLCEval([x \in S |-> TLCEval(DMap(PKKernel(d, x), LAMBDA o : o[2]))])
  IN \A x, y \in S : x # y => RMul(RMul(d[x], R(x[2])), DProb(ker[x], y)) = RMul(RMul(d[y], R(y[2])), DProb(ker[y], x))
\* its marginal is exact: path law times filtering weights
PKMarginalOf(m, n, K, d) ==
  \A i \in 1..Len(m.vs), u \in 1..2 :
     DMean(d, LAMBDA y : IF y[1] = u /\ y[3] = i THEN Q(y[2], IPow(n, K)) ELSE RZero)
     = RMul(Q(m.q[i], Sum(m.q)), Alpha(PKModel(m, K, m.vs[i]), K)[u])
PKMarginal(m, n, K, scheme) == LET d == TLCEval(PKProp(m, n, K, scheme)) IN PKMarginalOf(m, n, K, d)
=============================================================================
