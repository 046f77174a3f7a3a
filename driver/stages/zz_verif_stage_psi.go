package bls

func ZzVerifPsi(p *G2Affine) *G2Affine { return psi(p) }
