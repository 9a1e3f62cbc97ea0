------------------------------ MODULE GibbsLaw ------------------------------
(* The exact law of one Gibbs sweep on finite state spaces whose backward model is the
   exact reversal of its forward noising.
   The model is given in reversed time: m.p0[u][v] joint weight of (u_0, v_0),
   m.T[k][v][u] transition weights out of (u, v) at step k, m.G[k][v][u] weights of the
   next v.  u and v move independently given (u, v) (the model is separable).  The
   forward path law given (x_0, y_0) = (u_K, v_K) follows by conditioning.
   ref: initial particles from the reference law of u_0 (independent of v_0, uniform),
   otherwise copies of the reference state. *)
EXTENDS CSMCLaw, ForcedMove

GLWeight(m, K, us, vs) ==
  LET RECURSIVE go(_)
      go(k) == IF k = 0 THEN m.p0[us[1]][vs[1]]
               ELSE go(k - 1) * m.T[k][vs[k]][us[k]][us[k + 1]] * m.G[k][vs[k]][us[k]][vs[k + 1]]
  IN go(K)
GLPaths(m, K, y0) == {p \in [1..(K + 1) -> 1..2] \X [1..(K + 1) -> 1..2] : p[2][K + 1] = y0 /\ GLWeight(m, K, p[1], p[2]) > 0}
GLModel(m, K, us, vs, ref) ==
  [nu |-> 2, p0 |-> IF ref THEN <<1, 1>> ELSE [u \in 1..2 |-> IF u = us[1] THEN 1 ELSE 0], w0 |-> <<1, 1>>,
   P |-> [k \in 1..K |-> m.T[k][vs[k]]],
   g |-> [k \in 1..K |-> [u \in 1..2 |-> m.G[k][vs[k]][u][vs[k + 1]]]]]
\* one sweep given the forward path: the new x_0, and in ancestor tracing mode the trajectory and slots
GLKernel(m, n, K, ref, expl, us, vs, bs) ==
  LET q == GLModel(m, K, us, vs, ref)
      fwd == CLForward(q, n, K, "killing", us, bs)
  IN IF expl THEN DBind(fwd, LAMBDA o : DMap(FMLaw(CLWeights(q, o, K), bs[K + 1]), LAMBDA i : <<o[1][K + 1][i]>>))
     ELSE DBind(fwd, LAMBDA o : DMap(CLScan(q, o, K), LAMBDA r : <<r[1][K + 1], r[1], r[2]>>))
\* in explicit backward mode the slots of the next sweep are fresh: uniform on the user's
\* particles (nu of them) and independent of each other and of the new state
GLSlots(nu, K) == DUniform([1..(K + 1) -> 1..nu])
GLKernelSlots(m, n, K, ref, expl, us, vs, bs) ==
  IF expl THEN DBind(GLKernel(m, n, K, ref, expl, us, vs, bs),
                     LAMBDA o : DMap(GLSlots(IF ref THEN n - 1 ELSE n, K), LAMBDA b : <<o[1], b>>))
  ELSE GLKernel(m, n, K, ref, expl, us, vs, bs)
\* starting from p(x_0 | y_0) one sweep ends in p(x_0 | y_0)
GLInvariant(m, n, K, ref, expl, y0, bs) ==
  LET Ps == GLPaths(m, K, y0)
      ker == TLCEval([p \in Ps |-> TLCEval(DMap(GLKernel(m, n, K, ref, expl, p[1], p[2], bs), LAMBDA o : o[1]))])
  IN \A x \in 1..2 : RSumSet(Ps, LAMBDA p : RMul(R(GLWeight(m, K, p[1], p[2])), DProb(ker[p], x)))
                     = RSumSet({p \in Ps : p[1][K + 1] = x}, LAMBDA p : R(GLWeight(m, K, p[1], p[2])))
\* ancestor tracing: slots stay uniform and independent of the trajectory, jointly with it
GLJoint(m, n, K, ref, y0) ==
  LET Ps == GLPaths(m, K, y0)
      B == [1..(K + 1) -> 1..n]
      ker == TLCEval([p \in Ps, b \in B |-> TLCEval(DMap(GLKernel(m, n, K, ref, FALSE, p[1], p[2], b), LAMBDA o : <<o[2], o[3]>>))])
  IN \A p \in Ps, b \in B :
       RSumSet({q \in Ps : q[2] = p[2]}, LAMBDA q : RMul(R(GLWeight(m, K, q[1], q[2])), RSumSet(B, LAMBDA a : DProb(ker[q, a], <<p[1], b>>))))
       = R(GLWeight(m, K, p[1], p[2]))
=============================================================================
