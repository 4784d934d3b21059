package main

import (
	"math/big"
	"math/bits"
	"strings"

	rt "github.com/mewmew/float/zzsim/rt"
)

// twist gives another arrangement of the same bits, or a number that simple
// hashes and truncated keys take for v.
func twist(r *rt.Rand, v uint64) uint64 {
	d := uint64(1 + r.Intn(16))
	if r.Intn(3) == 0 {
		d = r.Uint64() >> uint(r.Intn(64))
	}
	switch r.Intn(14) {
	case 0:
		return v>>32 | v<<32
	case 1:
		return bits.RotateLeft64(v, 8*(1+r.Intn(7)))
	case 2:
		return bits.ReverseBytes64(v)
	case 3:
		return ^v
	case 4:
		return -v
	case 5: // the exclusive or of the halves stays
		d &= 0xFFFFFFFF
		return v ^ d ^ d<<32
	case 6: // the sum of the halves stays
		d &= 0xFFFFFFFF
		return v + d - d<<32
	case 7: // the index in a table of a power of two stays
		return v + d<<uint(4+r.Intn(20))
	case 8:
		return v + d*uint64([]int{31, 33, 37, 61, 97, 127, 251, 257, 509, 1009, 1021, 4093, 8191, 10, 100, 1000}[r.Intn(16)])
	case 9:
		return v - uint64(smallLiteral(r))
	case 10:
		return v + uint64(smallLiteral(r))
	case 11:
		return v << uint(1+r.Intn(32))
	case 12:
		return v >> uint(1+r.Intn(32))
	}
	return bits.Reverse64(v)
}

// confuse draws a call that something might take for o.
func (g *generator) confuse(o Op, names []string) Op {
	r := g.r
	p := o
	if r.Intn(6) == 0 {
		// Another function with the same arguments.
		k := fns[o.Fn].kind
		var l []string
		for _, n := range names {
			if fns[n].kind == k && n != o.Fn {
				l = append(l, n)
			}
		}
		if len(l) > 0 {
			p.Fn = l[r.Intn(len(l))]
			return p
		}
	}
	num := func(v uint64) uint64 {
		if r.Intn(2) == 0 {
			return near(r, v)
		}
		return twist(r, v)
	}
	switch fns[o.Fn].kind {
	case kBits16:
		p.A = [...]uint64{o.A>>8 | o.A<<8, ^o.A, -o.A, o.A ^ 0x8000, o.A + 1<<10, o.A + 1<<7, o.A>>3 | o.A<<13, num(o.A)}[r.Intn(8)] & 0xFFFF
	case kBits128, kBitsPPC, kBitsX87:
		d := uint64(1 + r.Intn(16))
		if r.Intn(2) == 0 {
			d = r.Uint64() >> uint(r.Intn(64))
		}
		switch r.Intn(8) {
		case 0:
			p.A, p.B = o.B, o.A
		case 1:
			p.A, p.B = o.A^d, o.B^d
		case 2:
			p.A, p.B = o.A+d, o.B-d
		case 3:
			p.A, p.B = o.A+1, o.B-uint64([]int{31, 33, 37, 131, 257, 16777619}[r.Intn(6)])
		case 4:
			p.A = num(o.A)
		case 5:
			p.B = num(o.B)
		case 6: // the lowest bit of the one into the highest of the other
			p.A, p.B = o.A^1, o.B^1<<63
		case 7:
			p.A, p.B = num(o.A), num(o.B)
		}
		if fns[o.Fn].kind == kBitsX87 {
			p.A &= 0xFFFF
		}
	case kF32:
		p.A = num(o.A) & 0xFFFFFFFF
	case kF64:
		p.A = num(o.A)
	case kInt, kAppInt:
		switch r.Intn(9) {
		case 0:
			if o.A >= 2 && o.A <= 36 {
				p.A, p.Base = uint64(o.Base), int(o.A)
			}
		case 1: // A<<5 + Base, A<<6 | Base and the like
			k := uint(4 + r.Intn(3))
			if b := o.Base - 1<<k; b >= 2 {
				p.A, p.Base = o.A+1, b
			} else if b := o.Base + 1<<k; b <= 36 {
				p.A, p.Base = o.A-1, b
			}
		case 2:
			d := r.Intn(35)
			if b := o.Base - d; b >= 2 {
				p.A, p.Base = o.A+uint64(d), b
			}
		case 3:
			b := 2 + r.Intn(35)
			p.A, p.Base = o.A^uint64(b^o.Base)<<uint([]int{0, 0, 8, 32, 56, 58}[r.Intn(6)]), b
		case 4: // the product stays
			for k := 0; k < 20; k++ {
				if b := 2 + r.Intn(35); o.A*uint64(o.Base)%uint64(b) == 0 {
					p.A, p.Base = o.A*uint64(o.Base)/uint64(b), b
				}
			}
		case 5: // the same digits
			p.Base = 2 + r.Intn(35)
			var x big.Int
			if _, ok := x.SetString(new(big.Int).SetUint64(o.A).Text(o.Base), p.Base); ok && x.IsUint64() {
				p.A = x.Uint64()
			}
		case 6:
			p.Base = baseValue(r)
		default:
			p.A = num(o.A)
		}
	case kItoa:
		p.A = num(o.A)
	case kFmt, kAppFmt:
		switch r.Intn(10) {
		case 0:
			if o.Prec == 16 || o.Prec == 32 || o.Prec == 64 {
				p.Prec, p.Bits = o.Bits, o.Prec
			} else {
				p.Prec, p.Bits = []int{16, 32, 64}[r.Intn(3)], []int{16, 32, 64}[r.Intn(3)]
			}
		case 1: // the sum stays
			p.Bits = []int{16, 32, 64}[r.Intn(3)]
			if k := o.Prec + o.Bits - p.Bits; k >= -1 && o.Prec >= 0 {
				p.Prec = k
			}
		case 2:
			p.Fmt = int(fmtBytes[r.Intn(len(fmtBytes))])
			if k := o.Prec + o.Fmt - p.Fmt; k >= -1 && o.Prec >= 0 && r.Intn(2) == 0 {
				p.Prec = k
			}
		case 3:
			p.Prec = []int{-2, -3, -100, -1 << 31, 255, 254, 256, 127, 128, 511, 1023}[r.Intn(11)]
		case 4:
			if o.Prec >= 0 && o.Prec < 600 {
				p.Prec = o.Prec + []int{256, 128, 64, 32}[r.Intn(4)]
			}
		case 5: // a mantissa or an exponent only
			p.A = o.A&(1<<52-1) | r.Uint64()&^(1<<52-1)
		case 6:
			p.A = o.A&^(1<<52-1) | r.Uint64()&(1<<52-1)
		case 7:
			d := r.Intn(8)
			p.A ^= uint64(d)
			if o.Prec >= 0 {
				p.Prec = o.Prec ^ d
			}
		default:
			p.A = num(o.A)
		}
	case kBig:
		s := g.sc.Specs[o.X-1]
		x, _, err := big.ParseFloat(s.Text, 0, 400, big.ToNearestEven)
		if err != nil || x.IsInf() || x.Sign() == 0 || strings.HasPrefix(s.Text, "nil") {
			return p
		}
		switch r.Intn(6) {
		case 0, 1: // the same mantissa
			k := []int{1, -1, 8, 16, 32, 64, -64, 128, 256, 1024, -1024, 1 << 14, -1 << 14}[r.Intn(13)]
			x.SetMantExp(x, k)
		case 2:
			x.Neg(x)
		case 3: // the last bit
			d := new(big.Float).SetMantExp(big.NewFloat(1), x.MantExp(nil)-int(s.PPrec))
			x.Add(x, d)
		case 4: // a word of the mantissa further down
			d := new(big.Float).SetMantExp(big.NewFloat(float64(1+r.Intn(1000))), x.MantExp(nil)-64-r.Intn(60))
			x.Add(x, d)
			s.PPrec = 300
		case 5:
			s.Prec = precValue(r)
		}
		if x.IsInf() {
			return p
		}
		s.Text = x.Text('p', 0)
		g.sc.Specs = append(g.sc.Specs, s)
		p.X = len(g.sc.Specs)
	}
	return p
}
