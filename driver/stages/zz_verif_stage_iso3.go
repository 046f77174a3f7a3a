package bls

func ZzVerifIso3(p *G2Affine) *G2Affine { return iso3(p) }
