---------------------------- MODULE ParticleLawX ----------------------------
EXTENDS ParticleLaw
VARIABLE i
LO(c) == PLRun(c.m, c.n, c.K, c.scheme, c.order)
INSTANCE LawExport WITH LawOf <- LO
=============================================================================
