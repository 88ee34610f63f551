package main

// Compiled together with /repo/lr/lr.go through an overlay.

import (
	"testing"

	"verifharness/hx"
	"verifharness/lrx"
)

func TestMain(m *testing.M) { hx.Main(m) }

var verifGamma = gamma //opt:gamma

func TestC19(t *testing.T) {
	p := &lrx.Prog{
		Name: "lr", Toy: false, Mini: false, File: "data.csv", Row: 1935,
		ShipIter: 4, FixedIter: false, Gamma: 0.3, Eta: []float64{1, 1.61803, 2.193527, 2.74979},
		Set: func(c lrx.Config) {
			PN15QP880.LogN, PN15QP880.LogSlots = c.LogN, c.LogN-1
			slotNum = 1 << (c.LogN - 1) //opt:slotNum
			numData, numFeature, numCompany, batchSize = c.NumData, 7, c.NumCompany, c.BatchSize
			numIter = c.NumIter             //opt:numIter
			gamma = verifGamma * c.GammaMul //opt:gamma
		},
		SetRead: func(n, f int) { numData, numFeature = n, f },
		SumRow:  SumRowVec, //opt:SumRowVec
		SumCol:  SumColVec, //opt:SumColVec
		Read:    readData,  //opt:readData
		Main:    main,
	}
	p.Suite(t)
}
