package main

// The simulated evaluation backend: the same observable semantics as gnark's
// test engine (constants and witness values are *big.Int, a failed assertion
// panics, advice comes from hint functions, deferred callbacks run after
// Define), but every step goes through the simulator: it counts work, is a
// point where another session may be scheduled, a crash may strike or the
// backend may refuse, and it routes advice requests to the (untrusted) oracle.

import (
	"fmt"
	"math/big"
	"path/filepath"
	"reflect"
	"runtime"
	"strings"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/constraint"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/schema"
	"golang.org/x/crypto/sha3"
)

var vsR = ecc.BN254.ScalarField()

type vsRejected struct{ msg string } // a constraint or the backend said no
type vsCrashed struct{ why string }  // injected crash
type vsHang struct{}                 // work budget exhausted
type vsStop struct{ why string }     // harness stopped the session on purpose

// vsAdviceReq is one request to the advice oracle, as seen on the wire.
type vsAdviceReq struct {
	Name string
	In   []*big.Int
	Out  []*big.Int // what was answered (after reduction), nil if it failed
}

type simAPI struct {
	th     *simThread // may be nil in single-session runs
	q      *big.Int
	steps  uint64
	budget uint64

	store map[any]any
	defs  []func(frontend.API) error

	blueprints []constraint.Blueprint
	internal   []*big.Int

	// advice oracle
	altBits  map[string]*big.Int                                                                                 // numbers whose bits the oracle gives as those of another integer
	pkgCalls int                                                                                                 // requests to functions of the package under test
	onHint   func(api *simAPI, idx int, name string, f solver.Hint, in []*big.Int, nOut int) ([]*big.Int, error) // nil: honest
	onReq    func(req *vsAdviceReq)
	hintErrs bool // advice failures returned as errors (builder style) instead of panics (engine style)
	recReqs  bool
	reqs     []vsAdviceReq

	// injected backend faults: the call number at which it strikes
	crashAt  uint64 // 0 none
	crashed  bool
	refuseAt uint64
	calls    uint64
	siteAt   int  // strike at the first operation asked for from the siteAt-th distinct place in the package
	siteDeep bool // a place is told apart by its caller as well
	siteRef  bool // refuse instead of crashing
	sites    map[[2]uintptr]bool

	lite      bool // boundary functions answer natively, see lite.go
	liteDefer bool // take every statement as true
	liteRng   *rng
	liteOps   int
	maxReq    int // advice requests after which the session counts as endless, 0 none

	mc mulCache
}

type mulCache struct {
	p *big.Int
	w [4]big.Word
	e fr.Element
}

func newSimAPI() *simAPI {
	return &simAPI{q: vsR, budget: vsDefaultBudget, store: map[any]any{}}
}

const vsDefaultBudget = 120_000_000

// tick is called on entry to every backend operation.
func (e *simAPI) tick() {
	e.calls++
	e.steps++
	if e.steps > e.budget {
		panic(vsHang{})
	}
	if e.crashAt != 0 && e.calls >= e.crashAt {
		e.crashed = true
		panic(vsCrashed{"backend crashed"})
	}
	if e.siteAt != 0 && !e.crashed {
		e.atSite()
	}
	if e.refuseAt != 0 && e.calls >= e.refuseAt {
		e.refuseAt = 0
		e.crashed = true
		panic("simulated backend refused the step")
	}
	vsY(vsSiteAPI)
}

var (
	vsPkgPC   = map[uintptr]bool{}
	vsPkgPath = func() string {
		pc, _, _, _ := runtime.Caller(0)
		s := runtime.FuncForPC(pc).Name()
		i := strings.LastIndex(s, "/") + 1
		return s[:i+strings.Index(s[i:], ".")]
	}()
)

func vsOwnFile(f string) bool {
	f = filepath.Base(f)
	return strings.HasPrefix(f, "vs_") || strings.HasPrefix(f, "h_")
}

// atSite strikes when a new place in the package under test asks for an
// operation and enough of them have done so before.
func (e *simAPI) atSite() {
	var pcs [96]uintptr
	n := runtime.Callers(3, pcs[:])
	var key [2]uintptr
	k := 0
	for _, pc := range pcs[:n] {
		in, ok := vsPkgPC[pc]
		if !ok {
			f, _ := runtime.CallersFrames([]uintptr{pc}).Next()
			in = strings.HasPrefix(f.Function, vsPkgPath+".") && !vsOwnFile(f.File)
			vsPkgPC[pc] = in
		}
		if in {
			key[k] = pc
			if k++; k == 2 || !e.siteDeep {
				break
			}
		}
	}
	if k == 0 || e.sites[key] {
		return
	}
	if e.sites == nil {
		e.sites = map[[2]uintptr]bool{}
	}
	e.sites[key] = true
	if len(e.sites) < e.siteAt {
		return
	}
	e.crashed = true
	if e.siteRef {
		panic("simulated backend refused the step")
	}
	panic(vsCrashed{"backend crashed"})
}

func (e *simAPI) fail(format string, a ...any) { panic(fmt.Sprintf(format, a...)) }

func (e *simAPI) big(v frontend.Variable) *big.Int {
	switch x := v.(type) {
	case *big.Int:
		if x == nil {
			panic("nil variable")
		}
		return x
	case big.Int:
		return &x
	case nil:
		panic("can't convert <nil> to a field element")
	case int:
		r := big.NewInt(int64(x))
		if x < 0 {
			r.Mod(r, e.q)
		}
		return r
	case uint:
		return new(big.Int).SetUint64(uint64(x))
	case uint64:
		return new(big.Int).SetUint64(x)
	case uint8:
		return new(big.Int).SetUint64(uint64(x))
	case uint16:
		return new(big.Int).SetUint64(uint64(x))
	case uint32:
		return new(big.Int).SetUint64(uint64(x))
	case int64:
		r := big.NewInt(x)
		return r.Mod(r, e.q)
	case int32:
		r := big.NewInt(int64(x))
		return r.Mod(r, e.q)
	case int8:
		r := big.NewInt(int64(x))
		return r.Mod(r, e.q)
	case int16:
		r := big.NewInt(int64(x))
		return r.Mod(r, e.q)
	case string:
		r, ok := new(big.Int).SetString(x, 0)
		if !ok {
			panic("unable to set big.Int from string")
		}
		return r.Mod(r, e.q)
	case []byte:
		r := new(big.Int).SetBytes(x)
		return r.Mod(r, e.q)
	default:
		rv := reflect.ValueOf(v)
		if rv.Kind() != reflect.Ptr {
			p := reflect.New(rv.Type())
			p.Elem().Set(rv)
			rv = p
		}
		if b, ok := rv.Interface().(interface{ BigInt(*big.Int) *big.Int }); ok {
			r := b.BigInt(new(big.Int))
			return r.Mod(r, e.q)
		}
		panic(reflect.TypeOf(v).String() + " can't be converted to a field element")
	}
}

func (e *simAPI) Add(a, b frontend.Variable, in ...frontend.Variable) frontend.Variable {
	e.tick()
	r := new(big.Int).Add(e.big(a), e.big(b))
	for _, x := range in {
		r.Add(r, e.big(x))
	}
	return e.red(r)
}

// red reduces r modulo the field in place.
func (e *simAPI) red(r *big.Int) *big.Int {
	if r.Sign() >= 0 {
		c := r.Cmp(e.q)
		if c < 0 {
			return r
		}
	}
	return r.Mod(r, e.q)
}

func (e *simAPI) MulAcc(a, b, c frontend.Variable) frontend.Variable {
	e.tick()
	t := new(big.Int).Mul(e.big(b), e.big(c))
	return e.red(t.Add(t, e.big(a)))
}

func (e *simAPI) Neg(a frontend.Variable) frontend.Variable {
	e.tick()
	r := new(big.Int).Neg(e.big(a))
	return r.Mod(r, e.q)
}

func (e *simAPI) Sub(a, b frontend.Variable, in ...frontend.Variable) frontend.Variable {
	e.tick()
	r := new(big.Int).Sub(e.big(a), e.big(b))
	for _, x := range in {
		r.Sub(r, e.big(x))
	}
	return r.Mod(r, e.q)
}

func (e *simAPI) elem(b *big.Int, out *fr.Element) bool {
	w := b.Bits()
	if b.Sign() < 0 || len(w) > 4 {
		return false
	}
	var l [4]big.Word
	copy(l[:], w)
	if e.mc.p == b && e.mc.w == l {
		*out = e.mc.e
		return true
	}
	out.SetBigInt(b)
	return true
}

func (e *simAPI) Mul(a, b frontend.Variable, in ...frontend.Variable) frontend.Variable {
	e.tick()
	b2 := e.big(b)
	if len(in) == 0 && b2.IsUint64() && b2.Uint64() <= 1 {
		if b2.Uint64() == 0 {
			return 0
		}
		return a
	}
	b1 := e.big(a)
	if len(in) == 0 && len(b1.Bits()) >= 3 && len(b2.Bits()) >= 3 {
		var x, y fr.Element
		if e.elem(b1, &x) && e.elem(b2, &y) {
			return e.fastMul(&x, &y, b2)
		}
	}
	r := new(big.Int).Mul(b1, b2)
	e.red(r)
	for _, x := range in {
		r.Mul(r, e.big(x))
		e.red(r)
	}
	return r
}

type bigBuf struct {
	b big.Int
	w [4]big.Word
}

func (e *simAPI) fastMul(x, y *fr.Element, _ *big.Int) *big.Int {
	x.Mul(x, y)
	u := x.Bits()
	o := &bigBuf{}
	for i := range u {
		o.w[i] = big.Word(u[i])
	}
	n := 4
	for n > 0 && o.w[n-1] == 0 {
		n--
	}
	o.b.SetBits(o.w[:n:n])
	e.mc.p, e.mc.w, e.mc.e = &o.b, o.w, *x
	return &o.b
}

func (e *simAPI) inv(b *big.Int) *big.Int {
	var x fr.Element
	x.SetBigInt(b)
	if x.IsZero() {
		panic("no inverse")
	}
	x.Inverse(&x)
	return x.BigInt(new(big.Int))
}

func (e *simAPI) Div(a, b frontend.Variable) frontend.Variable {
	e.tick()
	r := e.inv(e.big(b))
	r.Mul(r, e.big(a))
	return e.red(r)
}

func (e *simAPI) DivUnchecked(a, b frontend.Variable) frontend.Variable {
	e.tick()
	b1, b2 := e.big(a), e.big(b)
	if b1.Sign() == 0 && b2.Sign() == 0 {
		return 0
	}
	r := e.inv(b2)
	if b1.IsUint64() && b1.Uint64() == 0 {
		return new(big.Int)
	}
	r.Mul(r, b1)
	return e.red(r)
}

func (e *simAPI) Inverse(a frontend.Variable) frontend.Variable {
	e.tick()
	return e.inv(e.big(a))
}

func (e *simAPI) BatchInvert(in []frontend.Variable) []frontend.Variable {
	e.tick()
	xs := make([]fr.Element, len(in))
	for i := range in {
		xs[i].SetBigInt(e.big(in[i]))
	}
	ys := fr.BatchInvert(xs)
	out := make([]frontend.Variable, len(in))
	for i := range ys {
		out[i] = ys[i].BigInt(new(big.Int))
	}
	return out
}

func (e *simAPI) ToBinary(a frontend.Variable, n ...int) []frontend.Variable {
	e.tick()
	nb := e.FieldBitLen()
	if len(n) == 1 {
		nb = n[0]
		if nb < 0 {
			panic("invalid n")
		}
	}
	b := e.big(a)
	if b.BitLen() > nb {
		e.fail("[ToBinary] decomposing %s (bitLen == %d) with %d bits", b.String(), b.BitLen(), nb)
	}
	if nb >= e.q.BitLen() && (b.Sign() < 0 || b.Cmp(e.q) >= 0) {
		e.fail("[ToBinary] %s does not reconstruct", b.String())
	}
	r := make([]frontend.Variable, nb)
	for i := range r {
		r[i] = b.Bit(i)
	}
	return r
}

func (e *simAPI) FromBinary(v ...frontend.Variable) frontend.Variable {
	e.tick()
	r := new(big.Int)
	for i := range v {
		b := e.bool(v[i])
		r.SetBit(r, i, b)
	}
	return r.Mod(r, e.q)
}

func (e *simAPI) bool(v frontend.Variable) uint {
	b := e.big(v)
	if !b.IsUint64() || b.Uint64() > 1 {
		e.fail("[assertIsBoolean] %s", b.String())
	}
	return uint(b.Uint64())
}

func (e *simAPI) Xor(a, b frontend.Variable) frontend.Variable {
	e.tick()
	return new(big.Int).SetUint64(uint64(e.bool(a) ^ e.bool(b)))
}
func (e *simAPI) Or(a, b frontend.Variable) frontend.Variable {
	e.tick()
	return new(big.Int).SetUint64(uint64(e.bool(a) | e.bool(b)))
}
func (e *simAPI) And(a, b frontend.Variable) frontend.Variable {
	e.tick()
	return new(big.Int).SetUint64(uint64(e.bool(a) & e.bool(b)))
}

func (e *simAPI) Select(b, x, y frontend.Variable) frontend.Variable {
	e.tick()
	if e.bool(b) == 1 {
		return e.big(x)
	}
	return e.big(y)
}

func (e *simAPI) Lookup2(b0, b1, i0, i1, i2, i3 frontend.Variable) frontend.Variable {
	e.tick()
	return e.big([]frontend.Variable{i0, i1, i2, i3}[e.bool(b0)|e.bool(b1)<<1])
}

func (e *simAPI) IsZero(a frontend.Variable) frontend.Variable {
	e.tick()
	if e.big(a).Sign() == 0 {
		return big.NewInt(1)
	}
	return big.NewInt(0)
}

func (e *simAPI) Cmp(a, b frontend.Variable) frontend.Variable {
	e.tick()
	r := big.NewInt(int64(e.big(a).Cmp(e.big(b))))
	return r.Mod(r, e.q)
}

func (e *simAPI) AssertIsEqual(a, b frontend.Variable) {
	e.tick()
	x, y := e.big(a), e.big(b)
	if x.Cmp(y) != 0 {
		e.fail("[assertIsEqual] %s == %s", x.String(), y.String())
	}
}

func (e *simAPI) AssertIsDifferent(a, b frontend.Variable) {
	e.tick()
	x, y := e.big(a), e.big(b)
	if x.Cmp(y) == 0 {
		e.fail("[assertIsDifferent] %s != %s", x.String(), y.String())
	}
}

func (e *simAPI) AssertIsBoolean(a frontend.Variable) { e.tick(); e.bool(a) }

func (e *simAPI) AssertIsCrumb(a frontend.Variable) {
	e.tick()
	b := e.big(a)
	if !b.IsUint64() || b.Uint64() > 3 {
		e.fail("[assertIsCrumb] %s", b.String())
	}
}

func (e *simAPI) AssertIsLessOrEqual(v, bound frontend.Variable) {
	e.tick()
	b := e.big(bound)
	if b.Sign() == -1 {
		e.fail("[assertIsLessOrEqual] bound (%s) must be positive", b.String())
	}
	x := e.big(v)
	if x.Cmp(b) == 1 {
		e.fail("[assertIsLessOrEqual] %s > %s", x.String(), b.String())
	}
}

func (e *simAPI) MustBeLessOrEqCst(aBits []frontend.Variable, bound *big.Int, _ frontend.Variable) {
	e.tick()
	v := new(big.Int)
	for i, b := range aBits {
		v.SetBit(v, i, e.bool(b))
	}
	if v.Cmp(bound) > 0 {
		e.fail("%d > %d", v, bound)
	}
}

func (e *simAPI) Println(a ...frontend.Variable) {}

func (e *simAPI) Compiler() frontend.Compiler { return e }

// Check implements frontend.Rangechecker.
func (e *simAPI) Check(v frontend.Variable, nbits int) {
	e.tick()
	b := e.big(v)
	if b.Sign() < 0 || b.BitLen() > nbits {
		e.fail("[rangecheck] %s exceeds %d bits", b.String(), nbits)
	}
}

// The decomposition of a number into bits is advice, too. Where the code does
// not ask for the canonical one, an integer of the same residue will do.
func vsAltBits(alt map[string]*big.Int, x *big.Int, out []*big.Int) {
	y := alt[x.String()]
	if y == nil || y.BitLen() > len(out) {
		return
	}
	for i := range out {
		out[i].SetUint64(uint64(y.Bit(i)))
	}
}

func isBitsHint(f solver.Hint) bool {
	return strings.HasSuffix(solver.GetHintName(f), "/bits.nBits")
}

func vsHintName(f solver.Hint) (name string, inPkg bool) {
	fn := runtime.FuncForPC(reflect.ValueOf(f).Pointer())
	if fn == nil {
		return "?", false
	}
	n := fn.Name()
	return n[strings.LastIndex(n, ".")+1:], strings.HasPrefix(n, vsPkgPrefix)
}

// vsPkgPrefix is the import path prefix of functions of the package under test.
var vsPkgPrefix string

func init() {
	n := runtime.FuncForPC(reflect.ValueOf(vsShort).Pointer()).Name()
	vsPkgPrefix = n[:strings.LastIndex(n, ".")+1]
}

func (e *simAPI) NewHint(f solver.Hint, nbOutputs int, inputs ...frontend.Variable) ([]frontend.Variable, error) {
	e.tick()
	if nbOutputs <= 0 {
		return nil, fmt.Errorf("hint function must return at least one output")
	}
	in := make([]*big.Int, len(inputs))
	for i := range inputs {
		in[i] = e.big(inputs[i])
	}
	name, inPkg := vsHintName(f)
	var res []*big.Int
	var err error
	if inPkg {
		idx := e.pkgCalls
		e.pkgCalls++
		if e.maxReq > 0 && idx > e.maxReq {
			panic(vsHang{})
		}
		var req *vsAdviceReq
		if e.recReqs || e.onReq != nil {
			req = &vsAdviceReq{Name: name, In: vsClone(in)}
			if e.onReq != nil {
				e.onReq(req)
			}
		}
		if e.onHint != nil {
			res, err = e.onHint(e, idx, name, f, in, nbOutputs)
		} else {
			res, err = vsCallHint(f, in, nbOutputs)
		}
		if req != nil && e.recReqs {
			if err == nil {
				req.Out = vsClone(res)
			}
			e.reqs = append(e.reqs, *req)
		}
	} else {
		res, err = vsCallHint(f, in, nbOutputs)
		if e.altBits != nil && len(in) == 1 && err == nil && isBitsHint(f) {
			vsAltBits(e.altBits, in[0], res)
		}
	}
	if err != nil {
		if e.hintErrs {
			return nil, err
		}
		panic("NewHint: " + err.Error())
	}
	out := make([]frontend.Variable, nbOutputs)
	for i := range out {
		if i >= len(res) || res[i] == nil {
			panic("advice oracle left an output unset")
		}
		res[i].Mod(res[i], e.q)
		out[i] = res[i]
	}
	return out, nil
}

func vsCallHint(f solver.Hint, in []*big.Int, n int) ([]*big.Int, error) {
	res := make([]*big.Int, n)
	for i := range res {
		res[i] = new(big.Int)
	}
	err := f(new(big.Int).Set(vsR), in, res)
	return res, err
}

func vsClone(a []*big.Int) []*big.Int {
	r := make([]*big.Int, len(a))
	for i := range a {
		if a[i] != nil {
			r[i] = new(big.Int).Set(a[i])
		}
	}
	return r
}

func (e *simAPI) NewHintForId(id solver.HintID, nbOutputs int, inputs ...frontend.Variable) ([]frontend.Variable, error) {
	if f := solver.GetRegisteredHint(id); f != nil {
		return e.NewHint(f, nbOutputs, inputs...)
	}
	return nil, fmt.Errorf("no hint registered with id #%d", id)
}

func (e *simAPI) ConstantValue(v frontend.Variable) (*big.Int, bool) { return e.big(v), false }
func (e *simAPI) MarkBoolean(v frontend.Variable) {
	if !e.IsBoolean(v) {
		panic("mark boolean a non-boolean value")
	}
}
func (e *simAPI) IsBoolean(v frontend.Variable) bool {
	b := e.big(v)
	return b.IsUint64() && b.Uint64() <= 1
}
func (e *simAPI) Field() *big.Int  { return new(big.Int).Set(e.q) }
func (e *simAPI) FieldBitLen() int { return e.q.BitLen() }
func (e *simAPI) SetKeyValue(k, v any) {
	e.store[k] = v
}
func (e *simAPI) GetKeyValue(k any) any { return e.store[k] }

func (e *simAPI) Commit(v ...frontend.Variable) (frontend.Variable, error) {
	e.tick()
	buf := make([]byte, 32)
	h := sha3.NewCShake128(nil, []byte("gnark test engine"))
	for i := range v {
		h.Write(e.big(v[i]).FillBytes(buf))
	}
	h.Read(buf)
	r := new(big.Int).SetBytes(buf)
	r.Mod(r, e.q)
	if r.Sign() == 0 {
		r.SetUint64(1)
	}
	return r, nil
}

func (e *simAPI) Defer(cb func(frontend.API) error) { e.defs = append(e.defs, cb) }

func (e *simAPI) AddBlueprint(b constraint.Blueprint) constraint.BlueprintID {
	if _, ok := b.(constraint.BlueprintSolvable); !ok {
		panic("unsupported blueprint")
	}
	if s, ok := b.(constraint.BlueprintStateful); ok {
		s.Reset()
	}
	e.blueprints = append(e.blueprints, b)
	return constraint.BlueprintID(len(e.blueprints) - 1)
}

func (e *simAPI) AddInstruction(bID constraint.BlueprintID, calldata []uint32) []uint32 {
	e.tick()
	bp := e.blueprints[bID].(constraint.BlueprintSolvable)
	inst := constraint.Instruction{Calldata: calldata, WireOffset: uint32(len(e.internal))}
	n := bp.NbOutputs(inst)
	var r []uint32
	for i := 0; i < n; i++ {
		r = append(r, uint32(len(e.internal)))
		e.internal = append(e.internal, new(big.Int))
	}
	if err := bp.Solve(&vsBPSolver{vars: e.internal, q: e.q}, inst); err != nil {
		panic(err)
	}
	return r
}

func (e *simAPI) InternalVariable(id uint32) frontend.Variable {
	if id >= uint32(len(e.internal)) {
		panic("internal variable not found")
	}
	return new(big.Int).Set(e.internal[id])
}

func (e *simAPI) ToCanonicalVariable(v frontend.Variable) frontend.CanonicalVariable {
	return vsWrapped{e.big(v)}
}

func (e *simAPI) SetGkrInfo(constraint.GkrInfo) error { return fmt.Errorf("not implemented") }

type vsWrapped struct{ *big.Int }

func (w vsWrapped) Compress(to *[]uint32) {
	el := vsToElement(w.Int)
	for i := 0; i < len(el); i++ {
		*to = append(*to, uint32(el[i]), uint32(el[i]>>32))
	}
}

// element words are little-endian here; only this file reads them back
func vsToElement(b *big.Int) constraint.Element {
	var r constraint.Element
	if b.Sign() < 0 || b.BitLen() > 384 {
		panic("value out of range")
	}
	for i, w := range b.Bits() {
		r[i] = uint64(w)
	}
	return r
}

func vsFromElement(e constraint.Element) *big.Int {
	w := make([]big.Word, len(e))
	for i := range e {
		w[i] = big.Word(e[i])
	}
	return new(big.Int).SetBits(w)
}

// vsBPSolver solves custom blueprints (lookup tables) synchronously.
type vsBPSolver struct {
	vars []*big.Int
	q    *big.Int
}

func (s *vsBPSolver) SetValue(id uint32, f constraint.Element) { s.vars[id] = vsFromElement(f) }
func (s *vsBPSolver) GetValue(cID, vID uint32) constraint.Element {
	panic("not implemented")
}
func (s *vsBPSolver) GetCoeff(cID uint32) constraint.Element { panic("not implemented") }
func (s *vsBPSolver) IsSolved(vID uint32) bool               { panic("not implemented") }

func (s *vsBPSolver) FromInterface(i interface{}) constraint.Element {
	b := newSimAPI().big(i)
	return vsToElement(new(big.Int).Mod(b, s.q))
}
func (s *vsBPSolver) ToBigInt(f constraint.Element) *big.Int { return vsFromElement(f) }
func (s *vsBPSolver) Mul(a, b constraint.Element) constraint.Element {
	r := vsFromElement(a)
	r.Mul(r, vsFromElement(b)).Mod(r, s.q)
	return vsToElement(r)
}
func (s *vsBPSolver) Add(a, b constraint.Element) constraint.Element {
	r := vsFromElement(a)
	r.Add(r, vsFromElement(b)).Mod(r, s.q)
	return vsToElement(r)
}
func (s *vsBPSolver) Sub(a, b constraint.Element) constraint.Element {
	r := vsFromElement(a)
	r.Sub(r, vsFromElement(b)).Mod(r, s.q)
	return vsToElement(r)
}
func (s *vsBPSolver) Neg(a constraint.Element) constraint.Element {
	r := vsFromElement(a)
	r.Neg(r).Mod(r, s.q)
	return vsToElement(r)
}
func (s *vsBPSolver) Inverse(a constraint.Element) (constraint.Element, bool) {
	r := vsFromElement(a)
	if r.ModInverse(r, s.q) == nil {
		return vsToElement(new(big.Int)), false
	}
	return vsToElement(r), true
}
func (s *vsBPSolver) One() constraint.Element { return vsToElement(big.NewInt(1)) }
func (s *vsBPSolver) IsOne(a constraint.Element) bool {
	return vsFromElement(a).Cmp(big.NewInt(1)) == 0
}
func (s *vsBPSolver) String(a constraint.Element) string { return vsFromElement(a).String() }
func (s *vsBPSolver) Uint64(a constraint.Element) (uint64, bool) {
	return a[0], a[1]|a[2]|a[3]|a[4]|a[5] == 0
}
func (s *vsBPSolver) Read(calldata []uint32) (constraint.Element, int) {
	// written by vsWrapped.Compress
	var r constraint.Element
	for i := range r {
		r[i] = uint64(calldata[2*i]) | uint64(calldata[2*i+1])<<32
	}
	return r, len(r) * 2
}

// ---------------------------------------------------------------- sessions

type vsVerdict int

const (
	vAccept vsVerdict = iota
	vReject
	vCrash
	vHangV
)

func (v vsVerdict) String() string {
	return [...]string{"accept", "reject", "crash", "hang"}[v]
}

type vsOutcome struct {
	V   vsVerdict
	Why string
}

// vsProtect runs f like the evaluation engine runs Define: a returned error or
// a panic is a rejection.
func vsProtect(f func() error) (o vsOutcome) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case vsCrashed:
				o = vsOutcome{vCrash, x.why}
			case vsHang:
				o = vsOutcome{vHangV, "work budget exhausted"}
			case vsStop:
				o = vsOutcome{vReject, x.why}
			case vsKilled:
				panic(r)
			default:
				o = vsOutcome{vReject, vsShort(fmt.Sprint(r))}
			}
		}
	}()
	if err := f(); err != nil {
		return vsOutcome{vReject, vsShort(err.Error())}
	}
	return vsOutcome{vAccept, ""}
}

func vsShort(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 240 {
		s = s[:240] + "..."
	}
	return s
}

// vsSolve evaluates c directly: Define, then the deferred callbacks.
func (e *simAPI) vsSolve(c frontend.Circuit) vsOutcome {
	return vsProtect(func() error {
		if err := c.Define(e); err != nil {
			return fmt.Errorf("define: %w", err)
		}
		return e.runDeferred()
	})
}

func (e *simAPI) runDeferred() error {
	for i := 0; i < len(e.defs); i++ {
		if err := e.defs[i](e); err != nil {
			return fmt.Errorf("deferred: %w", err)
		}
	}
	return nil
}

// vsSolveW copies the witness leaves of w into the placeholder circuit c, as
// the evaluation engine does, and evaluates it.
func (e *simAPI) vsSolveW(c, w frontend.Circuit) vsOutcome {
	return vsProtect(func() error {
		vsCopyWitness(c, w)
		if err := c.Define(e); err != nil {
			return fmt.Errorf("define: %w", err)
		}
		return e.runDeferred()
	})
}

// vsCall evaluates a part of a circuit.
func (e *simAPI) vsCall(f func(api frontend.API) error) vsOutcome {
	return vsProtect(func() error {
		if err := f(e); err != nil {
			return err
		}
		return e.runDeferred()
	})
}

var vsTVariable = reflect.ValueOf(struct{ A frontend.Variable }{}).FieldByName("A").Type()

func vsCopyWitness(to, from frontend.Circuit) {
	var vals []reflect.Value
	if _, err := schema.Walk(from, vsTVariable, func(f schema.LeafInfo, t reflect.Value) error {
		if t.IsNil() {
			return fmt.Errorf("missing assignment %s", f.FullName())
		}
		vals = append(vals, t)
		return nil
	}); err != nil {
		panic(err)
	}
	i := 0
	_, _ = schema.Walk(to, vsTVariable, func(f schema.LeafInfo, t reflect.Value) error {
		t.Set(vals[i])
		i++
		return nil
	})
}
