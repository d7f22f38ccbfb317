----------------------------- MODULE DeferredMC -----------------------------
EXTENDS Deferred
Small == <<2, 2, 2>>
Full == <<4, 3, 4>>
=============================================================================
