--------------------------- MODULE ResamplingLaw ---------------------------
EXTENDS Resampling
VARIABLE i
LO(c) == IF c.cond THEN CondLaw(c.scheme, c.w, c.i, c.j) ELSE Law(c.scheme, c.w)
INSTANCE LawExport WITH LawOf <- LO
=============================================================================
