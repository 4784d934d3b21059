package main

import (
	"fmt"
	"math"
	"math/big"

	rt "github.com/mewmew/float/zzsim/rt"
)

// Values: everything is drawn from clusters of related values, so that calls
// which differ only in a part of their input (sign, low half, high half,
// precision, rounding mode, bit size, same float64 prefix) meet in one run.

var literals []uint64

var f64Classes = []uint64{
	0, 1 << 63, // zeros
	1, 0x000F_FFFF_FFFF_FFFF, 0x0010_0000_0000_0000, // subnormals
	0x7FEF_FFFF_FFFF_FFFF, 0x7FF0_0000_0000_0000, 0xFFF0_0000_0000_0000,
	0x7FF8_0000_0000_0000, 0x7FF8_0000_0000_0001, 0xFFF8_0000_0000_0000, 0x7FF0_0000_0000_0001, // NaNs
}

var f64Interesting = []float64{
	1, -1, 2, 0.5, 0.1, 0.25, 3, 10, 100, 1000, 1.5, 1.25, 0.3, 1.0 / 3, 2.0 / 3, math.Pi, math.E, 123.456, 1e10, 1e22, 1e23, 1e-5, 1e-7, 5e-324, 1e100, 1e-100, 1e300, 1e-300,
	65504, 65519, 65519.99, 65520, 65535, 65536, 65472, 6.103515625e-05, 6.097555160522461e-05, 5.9604644775390625e-08, 2.98023223876953125e-08, 2.9802322387695316e-08, 8.940696716308594e-08,
	2048, 2049, 2050, 2051, 1024.5, 0.333251953125, 0.00006103515625,
	16777216, 16777217, 16777218, 3.4028234663852886e38, 3.4028235677973366e38, 3.4028235677973362e38, 1.1754943508222875e-38, 1.401298464324817e-45, 7.006492321624085e-46, 7.006492321624087e-46,
	9007199254740992, 9007199254740993, 1.7976931348623157e308, 2.2250738585072014e-308, 2.2250738585072011e-308, 4.9406564584124654e-324,
	0.015625, 0.1875, 255, 256, 4095.5, 12345678, 99, 999, 9.995, 0.05, 0.5000000000000001,
}

func f64Value(r *rt.Rand) uint64 {
	switch r.Intn(12) {
	case 0:
		return f64Classes[r.Intn(len(f64Classes))]
	case 1, 2, 3:
		return math.Float64bits(f64Interesting[r.Intn(len(f64Interesting))])
	case 4: // exact in 16 bits
		return math.Float64bits(half(uint16(r.Uint64())))
	case 5: // exact in 32 bits
		return math.Float64bits(float64(math.Float32frombits(uint32(r.Uint64()))))
	case 6: // short decimal
		return math.Float64bits(float64(r.Intn(100000)) / math.Pow(10, float64(r.Intn(8))))
	case 7: // short binary, around the limits of the formats
		e := []int{-1074, -1022, -149, -126, -25, -24, -14, 0, 1, 15, 16, 64, 127, 128, 1023}[r.Intn(15)] + r.Intn(5) - 2
		return math.Float64bits(math.Ldexp(1+float64(r.Intn(1<<13))/(1<<13), e))
	case 8: // random within the range of 16 bits
		return math.Float64bits(math.Ldexp(1+float64(r.Uint64()>>12)/(1<<52), r.Intn(44)-26)) | r.Uint64()&(1<<63)
	case 9: // integers
		return math.Float64bits(float64(int64(r.Uint64()) >> uint(r.Intn(60))))
	case 10:
		if len(literals) > 0 {
			l := literals[r.Intn(len(literals))]
			if r.Intn(2) == 0 {
				return l + uint64(r.Intn(3)) - 1
			}
			return math.Float64bits(float64(int64(l)))
		}
	}
	return r.Uint64()
}

func half(b uint16) float64 {
	s := 1.0
	if b>>15 != 0 {
		s = -1
	}
	e := int(b >> 10 & 31)
	m := float64(b & 1023)
	switch e {
	case 0:
		return s * math.Ldexp(m, -24)
	case 31:
		if m == 0 {
			return math.Inf(int(s))
		}
		return math.NaN()
	}
	return s * math.Ldexp(1024+m, e-25)
}

// near gives a value easily confused with v.
func near(r *rt.Rand, v uint64) uint64 {
	switch r.Intn(14) {
	case 0, 1:
		return v ^ 1<<63
	case 2:
		return v + 1
	case 3:
		return v - 1
	case 4:
		return v ^ 1<<uint(r.Intn(64))
	case 5:
		return v&0xFFFFFFFF | r.Uint64()<<32
	case 6:
		return v&^0xFFFFFFFF | r.Uint64()>>32
	case 7:
		return v ^ 1<<uint(r.Intn(30))
	case 8:
		f := math.Float64frombits(v)
		return math.Float64bits(float64(float32(f)))
	case 9:
		return math.Float64bits(math.Float64frombits(v) * 2)
	case 10:
		return math.Float64bits(math.Float64frombits(v) * 10)
	case 11:
		return v&0xFFFF | r.Uint64()&^0xFFFF
	case 12:
		return v ^ uint64(r.Intn(1<<16))<<uint(16*r.Intn(4))
	}
	return v
}

func bits16Value(r *rt.Rand) uint64 {
	switch r.Intn(6) {
	case 0:
		l := []uint64{0, 0x8000, 1, 0x8001, 0x3FF, 0x400, 0x7BFF, 0x7C00, 0xFC00, 0x7E00, 0xFE00, 0x7C01, 0x3C00, 0xBC00, 0x7F80, 0xFF80, 0x7FC0, 0x7F7F, 0x0080, 0x007F, 0x3F80}
		return l[r.Intn(len(l))]
	case 1:
		return uint64(r.Intn(64))
	}
	return r.Uint64() & 0xFFFF
}

func b128Value(r *rt.Rand) (a, b uint64) {
	l := []uint64{0, 1, 0x0000_FFFF_FFFF_FFFF, 0x0001_0000_0000_0000, 0x3FFF_0000_0000_0000, 0x7FFE_FFFF_FFFF_FFFF, 0x7FFF_0000_0000_0000, 0x7FFF_8000_0000_0000, 0x7FFF_0000_0000_0001, 0x400E_FFC0_0000_0000, 0x4000_921F_B544_42D1}
	switch r.Intn(5) {
	case 0:
		a = l[r.Intn(len(l))]
	case 1: // within float64's range
		e := uint64(0x3FFF + r.Intn(2100) - 1075)
		a = e<<48 | r.Uint64()>>16
	case 2: // subnormal
		a = r.Uint64() >> uint(16+r.Intn(48))
	case 3: // within the range of 16 and 32 bits
		e := uint64(0x3FFF + r.Intn(300) - 150)
		a = e<<48 | r.Uint64()>>16
	default:
		a = r.Uint64()
	}
	a ^= uint64(r.Intn(2)) << 63
	switch r.Intn(4) {
	case 0:
		b = 0
	case 1:
		b = 1 << uint(r.Intn(64))
	default:
		b = r.Uint64()
	}
	return
}

func x87Value(r *rt.Rand) (a, b uint64) {
	switch r.Intn(5) {
	case 0:
		l := []uint64{0, 1, 0x3FFF, 0x7FFE, 0x7FFF, 0x4000, 0x400E, 0x3FF1}
		a = l[r.Intn(len(l))]
	case 1:
		a = uint64(0x3FFF + r.Intn(2100) - 1075)
	case 2:
		a = uint64(0x3FFF + r.Intn(300) - 150)
	default:
		a = r.Uint64() & 0x7FFF
	}
	a |= uint64(r.Intn(2)) << 15
	switch r.Intn(5) {
	case 0:
		l := []uint64{0, 1 << 63, 0xBFFFFFFFFFFFFFFF, 0xC000000000000000, 0xFFFFFFFFFFFFFFFF, 0x7FFFFFFFFFFFFFFF, 1, 1<<63 | 1}
		b = l[r.Intn(len(l))]
	case 1:
		b = r.Uint64()
	default:
		b = r.Uint64() | 1<<63
	}
	return
}

func ppcValue(r *rt.Rand) (a, b uint64) {
	a = f64Value(r)
	switch r.Intn(6) {
	case 0:
		b = 0
	case 1:
		b = f64Value(r)
	case 2: // infinities of either sign
		if r.Intn(4) == 0 {
			a, b = 0x7FF0_0000_0000_0000, 0xFFF0_0000_0000_0000
		}
	default:
		h := math.Float64frombits(a)
		if h == 0 || math.IsInf(h, 0) || math.IsNaN(h) {
			b = uint64(r.Intn(2)) << 63
			break
		}
		_, e := math.Frexp(h)
		b = math.Float64bits(math.Ldexp(float64(int64(r.Uint64()))/(1<<63), e-54))
	}
	return
}

var precs = []uint{53, 64, 24, 113, 11, 106, 200, 8, 1, 2, 128, 300, 54, 65}

// bigSpec makes an argument close to the float64 with the bits v.
func bigSpec(r *rt.Rand, v uint64, ppcSafe bool) BigSpec {
	s := BigSpec{PPrec: precValue(r), Mode: uint8(r.Intn(6))}
	if r.Intn(3) > 0 {
		s.Mode = 0
	}
	if r.Intn(3) > 0 {
		s.PPrec = precs[r.Intn(4)]
	}
	if r.Intn(4) == 0 {
		s.Prec = precValue(r)
	}
	f := math.Float64frombits(v)
	switch {
	case math.IsNaN(f):
		s.Text = fmt.Sprintf("%de%d", r.Intn(1000), r.Intn(20)-10)
	case math.IsInf(f, 0):
		s.Text = "Inf"
		if f < 0 {
			s.Text = "-Inf"
		}
	default:
		switch r.Intn(8) {
		case 0: // decimal text
			s.Text = fmt.Sprintf("%.*g", 1+r.Intn(20), f)
		case 1: // the same leading bits, other bits far below
			s.Text = bigText(f, r, 60+r.Intn(60))
			s.PPrec = 300
		case 2: // just above or below a tie of a narrower format
			s.Text = bigText(f, r, []int{12, 13, 25, 26, 54, 55, 65, 66, 114, 115}[r.Intn(10)])
			s.PPrec = 300
		case 3: // far outside the range of float64
			e := r.Intn(18000)
			if r.Intn(2) == 0 {
				e = 16200 + r.Intn(500)
			}
			if r.Intn(2) == 0 {
				e = -e
			}
			s.Text = fmt.Sprintf("%s0x1.%Xp%d", []string{"", "-"}[r.Intn(2)], r.Uint64()>>uint(r.Intn(60)), e)
		default:
			s.Text = new(big.Float).SetFloat64(f).Text('p', 0)
			if s.Text[0] != '-' && s.Text[0] != '0' {
				s.Text = "0"
			}
			if r.Intn(2) == 0 {
				s.PPrec = 53
				if r.Intn(2) == 0 {
					s.PPrec = precs[r.Intn(len(precs))]
				}
			}
		}
	}
	return s
}

// bigText is f with one more bit, k bits below the leading one.
func bigText(f float64, r *rt.Rand, k int) string {
	if f == 0 {
		return "0"
	}
	x := new(big.Float).SetPrec(400).SetFloat64(f)
	d := new(big.Float).SetPrec(400).SetInt64(1)
	d.SetMantExp(d, x.MantExp(nil)-k)
	if r.Intn(2) == 0 {
		d.Neg(d)
	}
	x.Add(x, d)
	if r.Intn(3) == 0 {
		d.SetMantExp(d, -10-r.Intn(60))
		x.Add(x, d)
	}
	return x.Text('p', 0)
}

// smallLiteral is a small constant of the code, or 0.
func smallLiteral(r *rt.Rand) int {
	for i := 0; i < 8 && len(literals) > 0; i++ {
		if l := literals[r.Intn(len(literals))]; l > 1 && l <= 1100 {
			return int(l)
		}
	}
	return 0
}

// precValue is a precision of an argument.
func precValue(r *rt.Rand) uint {
	if r.Intn(8) == 0 {
		if l := smallLiteral(r); l > 1 {
			return uint(l + r.Intn(3) - 1)
		}
	}
	return precs[r.Intn(len(precs))]
}

var fmtBytes = []byte("eEfgGb")

func fmtArgs(r *rt.Rand, o *Op) {
	o.Fmt = int(fmtBytes[r.Intn(len(fmtBytes))])
	if r.Intn(40) == 0 {
		o.Fmt = int("x%?p"[r.Intn(4)])
	}
	switch r.Intn(10) {
	case 0, 1, 2, 3, 4:
		o.Prec = -1
	case 5, 6, 7:
		o.Prec = r.Intn(18)
	case 8:
		o.Prec = r.Intn(40)
	default:
		o.Prec = r.Intn(200)
		if l := smallLiteral(r); r.Intn(2) == 0 && l > 0 {
			o.Prec = l + r.Intn(3) - 1
		}
	}
	o.Bits = []int{16, 32, 64}[r.Intn(3)]
}

func intValue(r *rt.Rand) uint64 {
	switch r.Intn(6) {
	case 0:
		return uint64(r.Intn(100))
	case 1:
		return uint64(-int64(r.Intn(130)))
	case 2:
		l := []uint64{0, 1 << 63, math.MaxInt64, math.MaxUint64, 99, 100, 101, 9, 10, 1<<32 - 1, 1 << 32, 999999999, 1000000000, 1 << 31, 4294967296000000000}
		return l[r.Intn(len(l))]
	case 3:
		if len(literals) > 0 {
			return literals[r.Intn(len(literals))] + uint64(r.Intn(3)) - 1
		}
	}
	return r.Uint64() >> uint(r.Intn(64))
}

func baseValue(r *rt.Rand) int {
	switch r.Intn(3) {
	case 0:
		return 10
	case 1:
		return []int{2, 8, 16, 32, 36, 4}[r.Intn(6)]
	}
	return 2 + r.Intn(35)
}
