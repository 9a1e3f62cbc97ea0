------------------------------- MODULE CSMCLaw -------------------------------
(* The exact law of one conditional SMC kernel step on a finite state space.
   A model m has nu, p0 (initial sampler weights), w0 (initial likelihood),
   P[k][u] (transition weights), g[k][u] (density of v_k given u_{k-1} = u).
   star / bs are the reference states and slots (slots 1-based here).
   A forward outcome is <<particles per step, ancestors per step>>; weights are
   functions of these. *)
EXTENDS Resampling

\* all slots but b drawn independently
CLFree(rows, b, x) == DProduct([i \in 1..Len(rows) |-> IF i = b THEN DUnit(x) ELSE DWeights(rows[i], Sum(rows[i]))])
CLW0(m, us) == [i \in 1..Len(us) |-> m.w0[us[i]]]
\* weights after step k, of the particles whose ancestors were `anc` among `us`
CLW(m, k, us, anc) == [i \in 1..Len(us) |-> m.g[k][us[anc[i]]]]
CLWeights(m, o, k) == IF k = 0 THEN CLW0(m, o[1][1]) ELSE CLW(m, k, o[1][k], o[2][k])

CLForward(m, n, K, scheme, star, bs) ==
  LET RECURSIVE go(_)
      go(k) ==
        IF k = 0 THEN DMap(CLFree([i \in 1..n |-> m.p0], bs[1], star[1]), LAMBDA u : << <<u>>, <<>> >>)
        ELSE DBind(go(k - 1), LAMBDA o :
               LET us == o[1][k] IN
               DBind(CondLaw(scheme, CLWeights(m, o, k - 1), bs[k], bs[k + 1]), LAMBDA x :
                 DMap(CLFree([i \in 1..n |-> m.P[k][us[x[i]]]], bs[k + 1], star[k + 1]), LAMBDA v :
                      <<Append(o[1], v), Append(o[2], x)>>)))
  IN go(K)

\* ancestor tracing from slot b at step K
CLTrace(o, K, b) ==
  LET RECURSIVE go(_, _)
      go(k, t) == IF k = 0 THEN t ELSE go(k - 1, <<o[2][k][t[1]]>> \o t)
      bb == go(K, <<b>>)
  IN <<[k \in 1..(K + 1) |-> o[1][k][bb[k]]], bb>>
CLScan(m, o, K) == LET W == CLWeights(m, o, K) IN DMap(DWeights(W, Sum(W)), LAMBDA b : CLTrace(o, K, b))

\* backward sampling
CLBackW(m, o, k, x) ==      \* weights of the step k-1 particles given the state x selected at step k
  LET W == CLWeights(m, o, k - 1)  us == o[1][k] IN
  [i \in 1..Len(us) |-> W[i] * m.P[k][us[i]][x] * m.g[k][us[i]]]
CLBack(m, o, K) ==
  LET W == CLWeights(m, o, K)
      RECURSIVE go(_, _)
      go(k, t) == IF k = 0 THEN DUnit(t)
                  ELSE LET V == CLBackW(m, o, k, o[1][k + 1][t[1]]) IN
                       DBind(DWeights(V, Sum(V)), LAMBDA b : go(k - 1, <<b>> \o t))
  IN DMap(DBind(DWeights(W, Sum(W)), LAMBDA b : go(K, <<b>>)),
          LAMBDA bb : <<[k \in 1..(K + 1) |-> o[1][k][bb[k]]], bb>>)

CLKernel(m, n, K, scheme, mode, star, bs) ==
  DBind(CLForward(m, n, K, scheme, star, bs),
        LAMBDA o : IF mode = "scan" THEN CLScan(m, o, K) ELSE CLBack(m, o, K))

\* unnormalised smoothing weight of a trajectory
CLTarget(m, K, u) ==
  LET RECURSIVE go(_)
      go(k) == IF k = 0 THEN R(m.p0[u[1]] * m.w0[u[1]])
               ELSE RMul(go(k - 1), Q(m.P[k][u[k]][u[k + 1]] * m.g[k][u[k]], Sum(m.P[k][u[k]])))
  IN go(K)
CLTrajs(m, K) == [1..(K + 1) -> 1..m.nu]
CLInvariant(m, n, K, scheme, mode, bs) ==
  LET T == CLTrajs(m, K)
      ker == TLCEval([s \in T |-> TLCEval(DMap(CLKernel(m, n, K, scheme, mode, s, bs), LAMBDA o : o[1]))])
  IN \A u \in T : RSumSet(T, LAMBDA s : RMul(CLTarget(m, K, s), DProb(ker[s], u))) = CLTarget(m, K, u)
=============================================================================
