package bls

func ZzVerifSWU1(t FQ) *G1Affine { return optimizedSWUMapHelper(t) }
