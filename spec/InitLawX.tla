----------------------------- MODULE InitLawX -----------------------------
(* The law of the state with which a filter-initialised Gibbs sampler starts: one of the
   final particles of a bootstrap filter, each slot with equal chances. *)
EXTENDS ParticleLaw
VARIABLE i
\* the law of the particle tuple after k steps (the weights are forgotten, so tuples merge)
PTup(m, n, K) ==
  LET RECURSIVE go(_)
      go(k) == IF k = 0
               THEN TLCEval(DProduct([a \in 1..n |-> DWeights(m.p0, Sum(m.p0))]))
               ELSE LET prev == go(k - 1)
                    IN TLCEval(DBind(prev, LAMBDA u :
                           LET sel == TLCEval(Law("stratified", TLCEval([a \in 1..n |-> m.g[k][u[a]]])))
                               mv == TLCEval(Indep(u, m.P[k]))
                           IN TLCEval(DBind(sel, LAMBDA x : DMap(mv, LAMBDA v : PLSeq(v, x))))))
  IN go(K)
ILaw(m, n, K) == DBind(PTup(m, n, K), LAMBDA o : DMap(DUniform(1..n), LAMBDA a : <<o[a]>>))
LO(c) == ILaw(c.m, c.n, c.K)
INSTANCE LawExport WITH LawOf <- LO
===========================================================================
