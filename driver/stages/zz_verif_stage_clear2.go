package bls

func ZzVerifClear2(p *G2Affine) *G2Affine { return clearH2(p) }
