PROP="C13"
NEEDS="two overlapping calls of the point multiplication advice function"
BREAKS="the encoded operand is put together in a buffer shared by all calls, so overlapping calls multiply each other's points or fail"
edits=[("aggregator_lib_circuit.go","""	var blob []byte
	bufByte0 := inputs[0].FillBytes(make([]byte, 32))
	blob = append(blob, bufByte0[:]...)
	bufByte1 := inputs[1].FillBytes(make([]byte, 32))
	blob = append(blob, bufByte1[:]...)
	p := new(bn256.G1)
""","""	blob := msmBlob[:]
	inputs[0].FillBytes(blob[:32])
	inputs[1].FillBytes(blob[32:])
	p := new(bn256.G1)
"""),("aggregator_lib_circuit.go","""func MsmHint(_""","""// msmBlob holds the encoded operand of MsmHint, to spare an allocation per call
var msmBlob [64]byte

func MsmHint(_""")]
DEMO='''package main

import (
	"math/big"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	var bad atomic.Int64
	end := time.Now().Add(15 * time.Second)
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		p := demoPoint(int64(g + 2))
		in := []*big.Int{p.X.BigInt(new(big.Int)), p.Y.BigInt(new(big.Int)), big.NewInt(3)}
		q := demoPoint(int64(g+2) * 3)
		x, y := q.X.BigInt(new(big.Int)), q.Y.BigInt(new(big.Int))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for time.Now().Before(end) && bad.Load() == 0 {
				out := []*big.Int{new(big.Int), new(big.Int)}
				if err := MsmHint(nil, in, out); err != nil || out[0].Cmp(x) != 0 || out[1].Cmp(y) != 0 {
					bad.Add(1)
				}
			}
		}()
	}
	wg.Wait()
	if bad.Load() != 0 {
		t.Fatal("overlapping calls gave a wrong answer")
	}
}
'''
