package main

import "github.com/phoreproject/bls"

func init() { stagePsi = bls.ZzVerifPsi }
