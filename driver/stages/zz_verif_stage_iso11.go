package bls

func ZzVerifIso11(p *G1Affine) *G1Affine { return iso11(p) }
