package main

// Compiled together with /repo/lr/lr_minibatch_toy.go through an overlay.

import (
	"testing"

	"verifharness/hx"
	"verifharness/lrx"
)

func TestMain(m *testing.M) { hx.Main(m) }

func TestC19(t *testing.T) {
	p := &lrx.Prog{
		Name: "lr_minibatch_toy", Toy: true, Mini: true, File: "toyData.csv", Row: -1,
		ShipIter: 3, FixedIter: true, Gamma: 3, Eta: []float64{1, 0, -0.28175, -0.43404},
		Set: func(c lrx.Config) {
			PN15QP880.LogN, PN15QP880.LogSlots = c.LogN, c.LogN-1
			numSlots = 1 << (c.LogN - 1) //opt:numSlots
			numData, numFeature, numCompany, batchSize = c.NumData, 20, c.NumCompany, c.BatchSize
			numTrain = c.NumTrain
			numBatch = c.NumBatch //opt:numBatch
		},
		SetRead: func(n, f int) { numData, numFeature = n, f },
		SumRow:  SumRowVec, //opt:SumRowVec
		SumCol:  SumColVec, //opt:SumColVec
		Read:    readData,  //opt:readData
		Main:    main,
	}
	p.Suite(t)
}
