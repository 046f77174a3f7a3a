package main

import "github.com/phoreproject/bls"

func init() { stageIso3 = bls.ZzVerifIso3 }
