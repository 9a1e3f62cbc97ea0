-------------------------------- MODULE GPModelMC --------------------------------
(* What the relations of GPModel are for, on all small integer covariances with an
   integer inverse (times a denominator): exact rational arithmetic. *)
EXTENDS Num
VARIABLES S, a, G2
Pos(M) == M[1][1][1] > 0 /\ MDet(M)[1] > 0
Mats == {<< <<R(p), R(q)>>, <<R(q), R(w)>> >> : p \in 1..4, q \in -2..2, w \in 1..4}
Init == /\ S \in {M \in Mats : Pos(M)}
        /\ a \in {Q(-1, 2), Q(-1, 1), Q(1, 2), Q(0, 1)}
        /\ G2 \in {ROne, Q(2, 1), Q(1, 3)}           \* b^2, and the observation variance
Next == UNCHANGED <<S, a, G2>>
Spec == Init /\ [][Next]_<<S, a, G2>>
A == MSub(MScale(RNeg(a), MId(2)), MScale(G2, MInv(S)))
\* (A + a I) S = -b^2 I, and the covariance of the reverse SDE runs the noised one backwards
Flow == /\ MMul(MAdd(A, MScale(a, MId(2))), S) = MScale(RNeg(G2), MId(2))
        /\ MAdd(MAdd(MMul(A, S), MMul(S, MT(A))), MScale(G2, MId(2)))
           = MScale(R(-1), MAdd(MScale(RMul(R(2), a), S), MScale(G2, MId(2))))
\* u = first, v = second coordinate: G S_vv = S_uv, C = S_uu - G S_vu give back the joint
Total == LET G == RDiv(S[1][2], S[2][2])
             C == RSub(S[1][1], RMul(G, S[2][1]))
         IN /\ C[1] > 0
            /\ RAdd(C, RMul(RMul(G, S[2][2]), G)) = S[1][1]
            /\ RMul(C, S[2][2]) = MDet(S)
\* C (S + lam I) = lam S and lam mu = C y are Bayes' rule: precision S^-1 + 1/lam
Posterior == LET PL == MAdd(S, MScale(G2, MId(2)))
                 C == MMul(MScale(G2, S), MInv(PL))
             IN /\ MSym(C)
                /\ MMul(C, MAdd(MInv(S), MScale(RInv(G2), MId(2)))) = MId(2)
                /\ C = MSub(S, MMul(S, MMul(MInv(PL), S)))
                /\ MScale(RInv(G2), C) = MMul(S, MInv(PL))
================================================================================
