PROP="C16"
NEEDS="a range whose lower bound is above its upper bound"
BREAKS="the upper bound is compared after shifting both sides by the lower one; with inverted bounds the shifted bound wraps around the field and every value above the lower bound passes"
edits=[("aggregator_lib_circuit.go","""	api.AssertIsLessOrEqual(x, Max)
""","""	// compare offsets from Min, which are short for realistic ranges
	api.AssertIsLessOrEqual(api.Sub(x, Min), api.Sub(Max, Min))
""")]
DEMO='''package main

import (
	"testing"

	"github.com/consensys/gnark/frontend"
)

func TestDemo(t *testing.T) {
	for _, c := range []struct {
		x, lo, hi int
		ok        bool
	}{{20, 18, 60, true}, {18, 18, 60, true}, {60, 18, 60, true}, {17, 18, 60, false}, {61, 18, 60, false}, {70, 60, 18, false}} {
		err := demoRun(func(api frontend.API) error { return VerifyRangeCheck(api, c.x, c.lo, c.hi) }, nil)
		if (err == nil) != c.ok {
			t.Fatal(c, err)
		}
	}
}
'''
