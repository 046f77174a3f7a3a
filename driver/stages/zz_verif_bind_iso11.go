package main

import "github.com/phoreproject/bls"

func init() { stageIso11 = bls.ZzVerifIso11 }
