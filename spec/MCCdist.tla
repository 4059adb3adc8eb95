-------------------------------- MODULE MCCdist -------------------------------
EXTENDS Cdist
=============================================================================
