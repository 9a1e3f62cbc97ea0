----------------------------- MODULE GibbsLawX -----------------------------
EXTENDS GibbsLaw
VARIABLE i
LO(c) == GLKernelSlots(c.m, c.n, c.K, c.ref, c.expl, c.us, c.vs, c.bs)
INSTANCE LawExport WITH LawOf <- LO
=============================================================================
