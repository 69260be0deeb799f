----------------------------- MODULE PoolAlgoMC -----------------------------
EXTENDS PoolAlgo
MCScript == <<1, 0, 2, 1>>
=============================================================================
