package main

import "github.com/phoreproject/bls"

func init() { stageClear2 = bls.ZzVerifClear2 }
