PROP="C11"
NEEDS="two sessions that derive their challenges at the same time"
BREAKS="the absorbed words are kept in a slice shared by all sessions, so one session's transcript leaks into another's challenges"
edits=[("aggregator_lib_circuit.go","""	var absorbing = make([]frontend.Variable, 112)
	absorb0,""","""	absorbing := absorbed[:]
	absorb0,"""),("aggregator_lib_circuit.go","""func GetChallengesShPlonkCircuit(""","""// absorbed holds the words absorbed since the last challenge
var absorbed [112]frontend.Variable

func GetChallengesShPlonkCircuit(""")]
DEMO='''package main

import (
	"math/big"
	"runtime"
	"sync"
	"testing"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/test"
)

type demoChal struct {
	Seed frontend.Variable
	Out  [8]frontend.Variable
}

var demoSeen sync.Map

func (c *demoChal) Define(api frontend.API) error {
	buf := make([]frontend.Variable, 43)
	for j := range buf {
		buf[j] = new(big.Int)
	}
	buf[0] = c.Seed
	if err := GetChallengesShPlonkCircuit(api, buf, demoWords(proofStr)); err != nil {
		return err
	}
	s := ""
	for i := 2; i < 10; i++ {
		s += buf[i].(*big.Int).String() + " "
	}
	api.AssertIsEqual(c.Seed, c.Seed)
	k := c.Seed.(*big.Int).String()
	old, had := demoSeen.LoadOrStore(k, s)
	if had && old != s {
		demoSeen.Store("bad", k)
	}
	return nil
}

func TestDemo(t *testing.T) {
	run := func(seed int) {
		w := &demoChal{Seed: big.NewInt(int64(seed))}
		for i := range w.Out {
			w.Out[i] = 0
		}
		if err := test.IsSolved(w, w, ecc.BN254.ScalarField()); err != nil {
			demoSeen.Store("bad", err.Error())
		}
	}
	for s := 1; s <= 4; s++ {
		run(s)
	}
	if _, bad := demoSeen.Load("bad"); bad {
		b, _ := demoSeen.Load("bad")
		t.Fatal("one after another: ", b)
	}
	runtime.GOMAXPROCS(8)
	for round := 0; round < 6; round++ {
		var wg sync.WaitGroup
		for s := 1; s <= 4; s++ {
			wg.Add(1)
			go func() { defer wg.Done(); run(s) }()
		}
		wg.Wait()
		if k, bad := demoSeen.Load("bad"); bad {
			t.Fatal("overlapping sessions got other challenges: ", k)
		}
	}
}
'''
