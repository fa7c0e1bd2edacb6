PROP="C11"
NEEDS="a session that starts while another one is inside its instance hash"
BREAKS="the final pairing check of a session is made with the evaluation backend of the session started last"
edits=[("circuit.go","""	buf := [43]frontend.Variable{}
""","""	engine = api
	buf := [43]frontend.Variable{}
"""),("circuit.go","""	err = VerifyNotZero(api, buf[10])
""","""	err = VerifyNotZero(engine, buf[10])
"""),("circuit.go","""	err = VerifyBN256Pairing(api, witnessCircuit""","""	err = VerifyBN256Pairing(engine, witnessCircuit"""),("circuit.go","""func VerifyInstanceHash""","""var engine frontend.API // backend in use

func VerifyInstanceHash""")]
DEMO='''package main

import (
	"testing"

	"github.com/consensys/gnark/frontend"
)

func TestDemo(t *testing.T) {
	msg := func() *AggregatorCircuit {
		return &AggregatorCircuit{
			Proof:      demoWords(proofStr),
			VerifyInst: demoWords([]string{"10573525131658455000365299935369648652552518565632155338390913030155084554858"}),
			Aux:        demoWords(auxStr),
			TargetInst: demoWords([]string{"7059793422771910484", "2556686405730241944", "2133554817341762742", "8974371243071329347"}),
		}
	}
	// the outer session is interrupted at its first request by one that fails
	// at once; its backend refuses everything afterwards
	started := false
	err := demoRun(func(api frontend.API) error {
		return msg().Define(api)
	}, func(name string, in []frontend.Variable, ask func() ([]frontend.Variable, error)) ([]frontend.Variable, error) {
		if !started {
			started = true
			func() {
				defer func() { recover() }()
				short := msg()
				short.VerifyInst = nil
				short.TargetInst = nil
				short.Define(demoDead{})
			}()
		}
		return ask()
	})
	if err != nil {
		t.Fatal("the session was disturbed by another one: ", err)
	}
}

type demoDead struct{ frontend.API }

func (demoDead) Compiler() frontend.Compiler { panic("this session is over") }
func (demoDead) Sub(a, b frontend.Variable, c ...frontend.Variable) frontend.Variable { panic("this session is over") }
func (demoDead) IsZero(a frontend.Variable) frontend.Variable { panic("this session is over") }
'''
