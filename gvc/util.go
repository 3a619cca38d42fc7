package main

import "math/big"

var bigZero = new(big.Int)

func strCat(a, b *Term) *Term { return App("str.cat", Str, a, b) }
