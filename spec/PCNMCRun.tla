------------------------------ MODULE PCNMCRun ------------------------------
EXTENDS PCNMC
Trip == {<<3,4,5>>, <<4,3,5>>, <<5,12,13>>, <<12,5,13>>, <<8,15,17>>, <<15,8,17>>, <<7,24,25>>, <<24,7,25>>, <<20,21,29>>}
=============================================================================
