------------------------------ MODULE CSMCLawX ------------------------------
EXTENDS CSMCLaw
VARIABLE i
LO(c) == CLKernel(c.m, c.n, c.K, c.scheme, c.mode, c.star, c.bs)
INSTANCE LawExport WITH LawOf <- LO
=============================================================================
