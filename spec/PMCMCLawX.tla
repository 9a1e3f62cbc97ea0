----------------------------- MODULE PMCMCLawX -----------------------------
EXTENDS PMCMCLaw
VARIABLE i
LO(c) == IF c.what = "prop" THEN PKProp(c.m, c.n, c.K, c.scheme)
         ELSE PKKernel(TLCEval(PKProp(c.m, c.n, c.K, c.scheme)), <<c.x[1], c.x[2], c.x[3]>>)
INSTANCE LawExport WITH LawOf <- LO
=============================================================================
