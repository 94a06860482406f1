----------------------------- MODULE MCParHist ------------------------------
EXTENDS ParHist
MCBins == <<2, 1, 2>>
=============================================================================
