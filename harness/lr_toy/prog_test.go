package main

// Compiled together with /repo/lr/lr_toy.go through an overlay.

import (
	"testing"

	"verifharness/hx"
	"verifharness/lrx"
)

func TestMain(m *testing.M) { hx.Main(m) }

func TestC19(t *testing.T) {
	p := &lrx.Prog{
		Name: "lr_toy", Toy: true, Mini: false, File: "toyData.csv", Row: 1935,
		ShipIter: 2, FixedIter: false, Gamma: 3, Eta: []float64{1, 0, -0.28175, -0.43404},
		Set: func(c lrx.Config) {
			PN15QP880.LogN, PN15QP880.LogSlots = c.LogN, c.LogN-1
			slotNum = 1 << (c.LogN - 1) //opt:slotNum
			numData, numFeature, numCompany, batchSize = c.NumData, 20, c.NumCompany, c.BatchSize
			numIter = c.NumIter //opt:numIter
		},
		SetRead: func(n, f int) { numData, numFeature = n, f },
		SumRow:  SumRowVec, //opt:SumRowVec
		SumCol:  SumColVec, //opt:SumColVec
		Read:    readData,  //opt:readData
		Main:    main,
	}
	p.Suite(t)
}
