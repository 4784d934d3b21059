package main

import (
	"fmt"
	"math"
	"math/big"
	"reflect"
	"regexp"
	"strconv"
	"unsafe"

	float "github.com/mewmew/float"
	"github.com/mewmew/float/bfloat"
	"github.com/mewmew/float/binary128"
	"github.com/mewmew/float/binary16"
	"github.com/mewmew/float/float128ppc"
	"github.com/mewmew/float/float80x86"
	fstrconv "github.com/mewmew/float/internal/strconv"
	rt "github.com/mewmew/float/zzsim/rt"
)

// BigSpec says how to build an argument of type *big.Float.
type BigSpec struct {
	Text  string `json:"text"` // "nil" is a nil pointer
	PPrec uint   `json:"parse_prec"`
	Prec  uint   `json:"prec"`
	Mode  uint8  `json:"mode"`
}

// Op is one call into the library, with what its caller does around it.
type Op struct {
	Fn   string `json:"fn"`
	A    uint64 `json:"a,omitempty"`
	B    uint64 `json:"b,omitempty"`
	Fmt  int    `json:"fmt,omitempty"`
	Prec int    `json:"prec,omitempty"`
	Bits int    `json:"bits,omitempty"`
	Base int    `json:"base,omitempty"`
	X    int    `json:"x,omitempty"`    // argument specification, from 1
	Slot int    `json:"slot,omitempty"` // 0: the shared object; else a private one, reused in place
	DLen int    `json:"dlen,omitempty"`
	DCap int    `json:"dcap,omitempty"`
	// DEmpty: a destination of no capacity is empty instead of nil.
	DEmpty bool `json:"dempty,omitempty"`
	// DSlot: one of the caller's own buffers, used again and again.
	DSlot int    `json:"dslot,omitempty"`
	Win   bool   `json:"win,omitempty"`  // append into the caller's window of the shared array
	Own   uint64 `json:"own,omitempty"`  // what the owner does with results afterwards
	Keep  bool   `json:"keep,omitempty"` // hold the result
	Rep   int    `json:"rep,omitempty"`  // so many more times
}

// out is what a call returned.
type out struct {
	enc   []byte
	bigs  []*big.Float
	bytes []byte
	str   string
	text  bool // the result is a text
	panic bool
}

func (r *out) u(v uint64)    { r.enc = strconv.AppendUint(append(r.enc, ' '), v, 16) }
func (r *out) i(v int)       { r.enc = strconv.AppendInt(append(r.enc, ' '), int64(v), 10) }
func (r *out) b(v bool)      { r.enc = strconv.AppendBool(append(r.enc, ' '), v) }
func (r *out) f64(v float64) { r.u(math.Float64bits(v)) }
func (r *out) f32(v float32) { r.u(uint64(math.Float32bits(v))) }
func (r *out) acc(a big.Accuracy) {
	r.enc = append(r.enc, ' ', "-=+?"[int(a+1)&3])
}
func (r *out) big(x *big.Float) {
	r.enc = append(r.enc, ' ')
	r.enc = encBig(r.enc, x)
	if x != nil {
		r.bigs = append(r.bigs, x)
	}
}
func (r *out) s(s string) {
	r.enc = append(r.enc, s...)
	r.str = s
	r.text = true
}

// rawFloat mirrors big.Float.
type rawFloat struct {
	prec uint32
	mode byte
	acc  int8
	form byte
	neg  bool
	mant []uint
	exp  int32
}

func init() {
	a, b := reflect.TypeOf(big.Float{}), reflect.TypeOf(rawFloat{})
	if a.Size() != b.Size() || a.NumField() != b.NumField() {
		panic("big.Float does not have the expected layout")
	}
	for i := 0; i < a.NumField(); i++ {
		if a.Field(i).Name != b.Field(i).Name || a.Field(i).Offset != b.Field(i).Offset {
			panic("big.Float does not have the expected layout")
		}
	}
}

func raw(x *big.Float) *rawFloat { return (*rawFloat)(unsafe.Pointer(x)) }

func encBig(b []byte, x *big.Float) []byte {
	if x == nil {
		return append(b, "nil"...)
	}
	r := raw(x)
	b = append(b, "big("...)
	b = strconv.AppendUint(b, uint64(r.prec), 10)
	b = append(b, ' ', '0'+r.mode, ' ', "-=+?"[(r.acc+1)&3], ' ', '0'+r.form, ' ')
	if r.neg {
		b = append(b, '-')
	}
	if r.form == 1 {
		m := r.mant
		for len(m) > 0 && m[0] == 0 {
			m = m[1:]
		}
		for _, w := range m {
			b = strconv.AppendUint(b, uint64(w), 16)
			b = append(b, '_')
		}
		b = append(b, 'p')
		b = strconv.AppendInt(b, int64(r.exp), 10)
	}
	return append(b, ')')
}

// snap remembers a *big.Float exactly.
type snap struct {
	p *big.Float
	r rawFloat
	w []uint
}

func takeSnap(x *big.Float, s *snap) {
	s.p = x
	if x == nil {
		return
	}
	s.r = *raw(x)
	s.w = append(s.w[:0], s.r.mant...)
	s.r.mant = nil
}

func (s *snap) same() bool {
	if s.p == nil {
		return true
	}
	r := raw(s.p)
	if r.prec != s.r.prec || r.mode != s.r.mode || r.acc != s.r.acc || r.form != s.r.form || r.neg != s.r.neg {
		return false
	}
	if r.form != 1 {
		return true
	}
	if r.exp != s.r.exp || len(r.mant) != len(s.w) {
		return false
	}
	for i, w := range s.w {
		if r.mant[i] != w {
			return false
		}
	}
	return true
}

func (s *snap) String() string {
	r := s.r
	r.mant = s.w
	return string(encBig(nil, (*big.Float)(unsafe.Pointer(&r))))
}

// Argument kinds.
const (
	kNone = iota
	kBits16
	kBits128
	kBitsX87
	kBitsPPC
	kF32
	kF64
	kBig
	kFmt
	kInt
	kItoa
	kAppFmt
	kAppInt
)

type fnDef struct {
	group string
	kind  int
	f     func(o *Op, x *big.Float, dst []byte, r *out)
}

var fns = map[string]fnDef{
	// binary16
	"b16.Big": {"b16", kBits16, func(o *Op, x *big.Float, d []byte, r *out) {
		z, n := binary16.NewFromBits(uint16(o.A)).Big()
		r.big(z)
		r.b(n)
	}},
	"b16.Float32": {"b16", kBits16, func(o *Op, x *big.Float, d []byte, r *out) {
		z, a := binary16.NewFromBits(uint16(o.A)).Float32()
		r.f32(z)
		r.acc(a)
	}},
	"b16.Float64": {"b16", kBits16, func(o *Op, x *big.Float, d []byte, r *out) {
		z, a := binary16.NewFromBits(uint16(o.A)).Float64()
		r.f64(z)
		r.acc(a)
	}},
	"b16.Parts": {"b16", kBits16, func(o *Op, x *big.Float, d []byte, r *out) {
		f := binary16.NewFromBits(uint16(o.A))
		r.u(uint64(f.Bits()))
		r.b(f.Signbit())
		r.i(f.Exp())
		r.u(uint64(f.Frac()))
	}},
	"b16.FromFloat32": {"b16", kF32, func(o *Op, x *big.Float, d []byte, r *out) {
		f, a := binary16.NewFromFloat32(math.Float32frombits(uint32(o.A)))
		r.u(uint64(f.Bits()))
		r.acc(a)
	}},
	"b16.FromFloat64": {"b16", kF64, func(o *Op, x *big.Float, d []byte, r *out) {
		f, a := binary16.NewFromFloat64(math.Float64frombits(o.A))
		r.u(uint64(f.Bits()))
		r.acc(a)
	}},
	"b16.FromBig": {"b16", kBig, func(o *Op, x *big.Float, d []byte, r *out) {
		f, a := binary16.NewFromBig(x)
		r.u(uint64(f.Bits()))
		r.acc(a)
	}},
	"b16.Trip": {"b16", kBits16, func(o *Op, x *big.Float, d []byte, r *out) {
		z, n := binary16.NewFromBits(uint16(o.A)).Big()
		r.big(z)
		r.b(n)
		f, a := binary16.NewFromBig(z)
		r.u(uint64(f.Bits()))
		r.acc(a)
	}},
	"b16.Consts": {"b16", kNone, func(o *Op, x *big.Float, d []byte, r *out) {
		for _, f := range []binary16.Float{binary16.NaN, binary16.NegNaN, binary16.Inf, binary16.NegInf, binary16.Zero, binary16.NegZero} {
			r.u(uint64(f.Bits()))
		}
	}},
	// binary128
	"b128.Big": {"b128", kBits128, func(o *Op, x *big.Float, d []byte, r *out) {
		z, n := binary128.NewFromBits(o.A, o.B).Big()
		r.big(z)
		r.b(n)
	}},
	"b128.Float32": {"b128", kBits128, func(o *Op, x *big.Float, d []byte, r *out) {
		z, a := binary128.NewFromBits(o.A, o.B).Float32()
		r.f32(z)
		r.acc(a)
	}},
	"b128.Float64": {"b128", kBits128, func(o *Op, x *big.Float, d []byte, r *out) {
		z, a := binary128.NewFromBits(o.A, o.B).Float64()
		r.f64(z)
		r.acc(a)
	}},
	"b128.Parts": {"b128", kBits128, func(o *Op, x *big.Float, d []byte, r *out) {
		f := binary128.NewFromBits(o.A, o.B)
		a, b := f.Bits()
		r.u(a)
		r.u(b)
		r.b(f.Signbit())
		r.i(f.Exp())
		a, b = f.Frac()
		r.u(a)
		r.u(b)
	}},
	"b128.FromFloat32": {"b128", kF32, func(o *Op, x *big.Float, d []byte, r *out) {
		f, a := binary128.NewFromFloat32(math.Float32frombits(uint32(o.A)))
		r.u2(f.Bits())
		r.acc(a)
	}},
	"b128.FromFloat64": {"b128", kF64, func(o *Op, x *big.Float, d []byte, r *out) {
		f, a := binary128.NewFromFloat64(math.Float64frombits(o.A))
		r.u2(f.Bits())
		r.acc(a)
	}},
	"b128.FromBig": {"b128", kBig, func(o *Op, x *big.Float, d []byte, r *out) { f, a := binary128.NewFromBig(x); r.u2(f.Bits()); r.acc(a) }},
	"b128.Trip": {"b128", kBits128, func(o *Op, x *big.Float, d []byte, r *out) {
		z, n := binary128.NewFromBits(o.A, o.B).Big()
		r.big(z)
		r.b(n)
		f, a := binary128.NewFromBig(z)
		r.u2(f.Bits())
		r.acc(a)
	}},
	"b128.Consts": {"b128", kNone, func(o *Op, x *big.Float, d []byte, r *out) {
		for _, f := range []binary128.Float{binary128.NaN, binary128.NegNaN, binary128.Inf, binary128.NegInf, binary128.Zero, binary128.NegZero} {
			r.u2(f.Bits())
		}
	}},
	// float80x86
	"f80.Big": {"f80", kBitsX87, func(o *Op, x *big.Float, d []byte, r *out) {
		z, n := float80x86.NewFromBits(uint16(o.A), o.B).Big()
		r.big(z)
		r.b(n)
	}},
	"f80.Float32": {"f80", kBitsX87, func(o *Op, x *big.Float, d []byte, r *out) {
		z, a := float80x86.NewFromBits(uint16(o.A), o.B).Float32()
		r.f32(z)
		r.acc(a)
	}},
	"f80.Float64": {"f80", kBitsX87, func(o *Op, x *big.Float, d []byte, r *out) {
		z, a := float80x86.NewFromBits(uint16(o.A), o.B).Float64()
		r.f64(z)
		r.acc(a)
	}},
	"f80.Parts": {"f80", kBitsX87, func(o *Op, x *big.Float, d []byte, r *out) {
		f := float80x86.NewFromBits(uint16(o.A), o.B)
		a, b := f.Bits()
		r.u2(uint64(a), b)
		r.b(f.Signbit())
		r.i(f.Exp())
		r.i(f.Lead())
		r.u(f.Frac())
	}},
	"f80.FromFloat32": {"f80", kF32, func(o *Op, x *big.Float, d []byte, r *out) {
		f, a := float80x86.NewFromFloat32(math.Float32frombits(uint32(o.A)))
		p, q := f.Bits()
		r.u2(uint64(p), q)
		r.acc(a)
	}},
	"f80.FromFloat64": {"f80", kF64, func(o *Op, x *big.Float, d []byte, r *out) {
		f, a := float80x86.NewFromFloat64(math.Float64frombits(o.A))
		p, q := f.Bits()
		r.u2(uint64(p), q)
		r.acc(a)
	}},
	"f80.FromBig": {"f80", kBig, func(o *Op, x *big.Float, d []byte, r *out) {
		f, a := float80x86.NewFromBig(x)
		p, q := f.Bits()
		r.u2(uint64(p), q)
		r.acc(a)
	}},
	"f80.Trip": {"f80", kBitsX87, func(o *Op, x *big.Float, d []byte, r *out) {
		z, n := float80x86.NewFromBits(uint16(o.A), o.B).Big()
		r.big(z)
		r.b(n)
		f, a := float80x86.NewFromBig(z)
		p, q := f.Bits()
		r.u2(uint64(p), q)
		r.acc(a)
	}},
	"f80.Consts": {"f80", kNone, func(o *Op, x *big.Float, d []byte, r *out) {
		for _, f := range []float80x86.Float{float80x86.NaN, float80x86.NegNaN, float80x86.Inf, float80x86.NegInf, float80x86.Zero, float80x86.NegZero} {
			p, q := f.Bits()
			r.u2(uint64(p), q)
		}
	}},
	// float128ppc
	"ppc.Big": {"ppc", kBitsPPC, func(o *Op, x *big.Float, d []byte, r *out) {
		z, n := float128ppc.NewFromBits(o.A, o.B).Big()
		r.big(z)
		r.b(n)
	}},
	"ppc.Float32": {"ppc", kBitsPPC, func(o *Op, x *big.Float, d []byte, r *out) {
		z, a := float128ppc.NewFromBits(o.A, o.B).Float32()
		r.f32(z)
		r.acc(a)
	}},
	"ppc.Float64": {"ppc", kBitsPPC, func(o *Op, x *big.Float, d []byte, r *out) {
		z, a := float128ppc.NewFromBits(o.A, o.B).Float64()
		r.f64(z)
		r.acc(a)
	}},
	"ppc.Parts": {"ppc", kBitsPPC, func(o *Op, x *big.Float, d []byte, r *out) {
		f := float128ppc.NewFromBits(o.A, o.B)
		r.u2(f.Bits())
		r.b(f.IsNaN())
	}},
	"ppc.FromFloat32": {"ppc", kF32, func(o *Op, x *big.Float, d []byte, r *out) {
		f, a := float128ppc.NewFromFloat32(math.Float32frombits(uint32(o.A)))
		r.u2(f.Bits())
		r.acc(a)
	}},
	"ppc.FromFloat64": {"ppc", kF64, func(o *Op, x *big.Float, d []byte, r *out) {
		f, a := float128ppc.NewFromFloat64(math.Float64frombits(o.A))
		r.u2(f.Bits())
		r.acc(a)
	}},
	"ppc.FromBig": {"ppc", kBig, func(o *Op, x *big.Float, d []byte, r *out) {
		f, a := float128ppc.NewFromBig(x)
		r.u2(f.Bits())
		r.acc(a)
	}},
	"ppc.Trip": {"ppc", kBitsPPC, func(o *Op, x *big.Float, d []byte, r *out) {
		z, n := float128ppc.NewFromBits(o.A, o.B).Big()
		r.big(z)
		r.b(n)
		f, a := float128ppc.NewFromBig(new(big.Float).Copy(z))
		r.u2(f.Bits())
		r.acc(a)
	}},
	"ppc.Consts": {"ppc", kNone, func(o *Op, x *big.Float, d []byte, r *out) {
		for _, f := range []float128ppc.Float{float128ppc.NaN, float128ppc.NegNaN, float128ppc.Inf, float128ppc.NegInf, float128ppc.Zero, float128ppc.NegZero} {
			r.u2(f.Bits())
		}
	}},
	// bfloat
	"bf.Big": {"bf", kBits16, func(o *Op, x *big.Float, d []byte, r *out) {
		z, n := bfloat.NewFromBits(uint16(o.A)).Big()
		r.big(z)
		r.b(n)
	}},
	"bf.Parts": {"bf", kBits16, func(o *Op, x *big.Float, d []byte, r *out) {
		f := bfloat.NewFromBits(uint16(o.A))
		r.b(f.Signbit())
		r.i(f.Exp())
		r.u(uint64(f.Frac()))
	}},
	// exactness predicates
	"IsExact16": {"exact", kBig, func(o *Op, x *big.Float, d []byte, r *out) { r.b(float.IsExact16(x)) }},
	"IsExact32": {"exact", kBig, func(o *Op, x *big.Float, d []byte, r *out) { r.b(float.IsExact32(x)) }},
	"IsExact64": {"exact", kBig, func(o *Op, x *big.Float, d []byte, r *out) { r.b(float.IsExact64(x)) }},
	// text
	"FormatFloat": {"ftoa", kFmt, func(o *Op, x *big.Float, d []byte, r *out) {
		r.s(fstrconv.FormatFloat(math.Float64frombits(o.A), byte(o.Fmt), o.Prec, o.Bits))
	}},
	"FormatInt":  {"itoa", kInt, func(o *Op, x *big.Float, d []byte, r *out) { r.s(fstrconv.FormatInt(int64(o.A), o.Base)) }},
	"FormatUint": {"itoa", kInt, func(o *Op, x *big.Float, d []byte, r *out) { r.s(fstrconv.FormatUint(o.A, o.Base)) }},
	"Itoa":       {"itoa", kItoa, func(o *Op, x *big.Float, d []byte, r *out) { r.s(fstrconv.Itoa(int(o.A))) }},
	"AppendFloat": {"app", kAppFmt, func(o *Op, x *big.Float, d []byte, r *out) {
		r.app(fstrconv.AppendFloat(d, math.Float64frombits(o.A), byte(o.Fmt), o.Prec, o.Bits))
	}},
	"AppendInt":  {"app", kAppInt, func(o *Op, x *big.Float, d []byte, r *out) { r.app(fstrconv.AppendInt(d, int64(o.A), o.Base)) }},
	"AppendUint": {"app", kAppInt, func(o *Op, x *big.Float, d []byte, r *out) { r.app(fstrconv.AppendUint(d, o.A, o.Base)) }},
}

// formatOf maps an appending call to the formatting call it must agree with.
var formatOf = map[string]string{"AppendFloat": "FormatFloat", "AppendInt": "FormatInt", "AppendUint": "FormatUint"}

func (r *out) u2(a, b uint64) { r.u(a); r.u(b) }
func (r *out) app(b []byte) {
	r.enc = append(r.enc, b...)
	r.bytes = b
	r.text = true
}

var addrRe = regexp.MustCompile(`0x[0-9a-f]{8,}`)

// exec makes the call.
func exec(o *Op, x *big.Float, dst []byte, r *out) {
	r.enc, r.bigs, r.bytes, r.str, r.text, r.panic = r.enc[:0], r.bigs[:0], nil, "", false, false
	def, ok := fns[o.Fn]
	if !ok {
		panic("unknown operation " + o.Fn)
	}
	defer func() {
		rt.EndOp()
		if e := recover(); e != nil {
			if rt.IsExit(e) {
				panic(e)
			}
			r.panic = true
			r.bigs, r.bytes, r.str, r.text = r.bigs[:0], nil, "", false
			s := fmt.Sprint(e)
			if len(s) > 12 {
				s = addrRe.ReplaceAllString(s, "ADDR")
			}
			r.enc = append(append(r.enc[:0], "panic: "...), s...)
		}
	}()
	rt.BeginOp()
	def.f(o, x, dst, r)
}

// build makes a fresh argument.
func (b *BigSpec) build() (x *big.Float) {
	if b.Text == "nil" {
		return nil
	}
	pp := b.PPrec
	if pp == 0 {
		pp = 64
	}
	x, _, err := big.ParseFloat(b.Text, 0, pp, big.RoundingMode(b.Mode))
	if err != nil {
		if x == nil {
			panic(fmt.Sprintf("bad argument specification %q: %v", b.Text, err))
		}
	}
	if b.Prec != 0 && b.Prec != pp {
		x.SetPrec(b.Prec)
	}
	return x
}

// key identifies the call, without what its caller does around it.
func (o *Op) key(specs []BigSpec, b []byte) []byte {
	b = append(b, o.Fn...)
	for _, v := range [...]uint64{o.A, o.B, uint64(o.Fmt), uint64(o.Prec), uint64(o.Bits), uint64(o.Base)} {
		b = append(b, ' ')
		b = strconv.AppendUint(b, v, 36)
	}
	if o.X > 0 {
		s := &specs[o.X-1]
		b = append(b, ' ')
		b = append(b, s.Text...)
		b = strconv.AppendUint(append(b, ' '), uint64(s.PPrec), 10)
		b = strconv.AppendUint(append(b, ' '), uint64(s.Prec), 10)
		b = append(b, ' ', '0'+s.Mode)
	}
	if k := fns[o.Fn].kind; k == kAppFmt || k == kAppInt {
		b = strconv.AppendInt(append(b, ' '), int64(o.DLen), 10)
		b = strconv.AppendInt(append(b, ' '), int64(o.DCap), 10)
	}
	return b
}

// describe is the readable form.
func (o *Op) describe(specs []BigSpec) string {
	switch fns[o.Fn].kind {
	case kNone:
		return o.Fn
	case kBits16:
		return fmt.Sprintf("%s(0x%04X)", o.Fn, uint16(o.A))
	case kBits128, kBitsPPC:
		return fmt.Sprintf("%s(0x%016X, 0x%016X)", o.Fn, o.A, o.B)
	case kBitsX87:
		return fmt.Sprintf("%s(0x%04X, 0x%016X)", o.Fn, uint16(o.A), o.B)
	case kF32:
		return fmt.Sprintf("%s(%v /*0x%08X*/)", o.Fn, math.Float32frombits(uint32(o.A)), uint32(o.A))
	case kF64:
		return fmt.Sprintf("%s(%v /*0x%016X*/)", o.Fn, math.Float64frombits(o.A), o.A)
	case kBig:
		s := specs[o.X-1]
		return fmt.Sprintf("%s(%s prec=%d/%d mode=%v)", o.Fn, s.Text, s.PPrec, s.Prec, big.RoundingMode(s.Mode))
	case kFmt:
		return fmt.Sprintf("%s(%v /*0x%016X*/, %q, %d, %d)", o.Fn, math.Float64frombits(o.A), o.A, rune(o.Fmt), o.Prec, o.Bits)
	case kAppFmt:
		return fmt.Sprintf("%s(dst[%d:%d], %v /*0x%016X*/, %q, %d, %d)", o.Fn, o.DLen, o.DCap, math.Float64frombits(o.A), o.A, rune(o.Fmt), o.Prec, o.Bits)
	case kInt:
		return fmt.Sprintf("%s(%d, base %d)", o.Fn, int64(o.A), o.Base)
	case kAppInt:
		return fmt.Sprintf("%s(dst[%d:%d], %d, base %d)", o.Fn, o.DLen, o.DCap, int64(o.A), o.Base)
	case kItoa:
		return fmt.Sprintf("%s(%d)", o.Fn, int64(o.A))
	}
	return o.Fn
}
