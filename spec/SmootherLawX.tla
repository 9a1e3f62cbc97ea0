---------------------------- MODULE SmootherLawX ----------------------------
EXTENDS SmootherLaw
VARIABLE i
LO(c) == SMLaw(c.F, c.P, c.K)
INSTANCE LawExport WITH LawOf <- LO
=============================================================================
