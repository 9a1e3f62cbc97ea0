-------------------------------- MODULE PCN --------------------------------
(* The preconditioned Crank-Nicolson move around N(m, C):
      p = rho x + (1 - rho) m + sum_i c_i (r_i - m),   r_i independent draws,
   with rho = 2 / (2 + delta) and sum c_i^2 = 1 - rho^2.
   Coefficients are observed in units of 1/PSC. *)
EXTENDS Integers, Sequences
PSC == 8192
PCNAbs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE PCNSum(_)
PCNSum(s) == IF s = <<>> THEN 0 ELSE Head(s) + PCNSum(Tail(s))
PCNSmall(x) == PCNAbs(x) <= 4 * PSC
\* e: a, b, cs (coefficients of x, m and the draws), res (residual), num/den = delta
PCNClauses(e) ==
  << <<"proposal is an affine combination of state, mean and the sampler's draws", PCNAbs(e.res) <= 8>>,
     <<"coefficient of the state is 2/(2+delta)",
       PCNSmall(e.a) /\ PCNAbs(e.a * (2 * e.den + e.num) - 2 * e.den * PSC) <= 4 * (2 * e.den + e.num)>>,
     <<"the mean of the proposal is m + rho (x - m)",
       PCNSmall(e.a) /\ PCNSmall(e.b) /\ (\A i \in 1..Len(e.cs) : PCNSmall(e.cs[i])) /\ PCNAbs(e.a + e.b + PCNSum(e.cs) - PSC) <= 10>>,
     <<"noise variance is 1 - rho^2",
       PCNSmall(e.a) /\ (\A i \in 1..Len(e.cs) : PCNSmall(e.cs[i])) /\
       PCNAbs(PCNSum([i \in 1..Len(e.cs) |-> e.cs[i] * e.cs[i]]) + e.a * e.a - PSC * PSC) <= 20 * PSC>>,
     <<"draws of the sampler are independent draws of its own", e.nd = Len(e.cs)>> >>
=============================================================================
