package main

import "github.com/phoreproject/bls"

func init() { stageSWU1 = bls.ZzVerifSWU1 }
