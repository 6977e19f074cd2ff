------------------------------- MODULE Sample -------------------------------
(* A reproducible sample of behaviours, whichever worker meets them.           *)
EXTENDS Integers, IOUtils, TLCExt
Emits(n, x) == TLCFP(<<x, IOEnv.VERIF_SEED>>) % n = 0
=============================================================================
