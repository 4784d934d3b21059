package simrt

import (
	"math/big"
	"strconv"
	"sync"
)

// BigText is (*big.Float).Text, faster for numbers with a large exponent. It
// computes the digits in 320-bit arithmetic, leaves every case in which that
// might not decide the rounding to math/big, and compares itself with math/big
// now and then.
func BigText(x *big.Float, f byte, prec int) string {
	if s, ok := fastText(x, f, prec); ok {
		bigMu.Lock()
		bigN++
		check := bigN <= 40 || bigN%997 == 0
		bigMu.Unlock()
		if check && x.Text(f, prec) != s {
			panic("simrt: BigText is wrong: " + s)
		}
		return s
	}
	return x.Text(f, prec)
}

func BigAppend(x *big.Float, buf []byte, f byte, prec int) []byte {
	return append(buf, BigText(x, f, prec)...)
}
func BigString(x *big.Float) string { return BigText(x, 'g', 10) }

const bigW = 320

var (
	bigMu  sync.Mutex
	bigN   int
	bigPow = map[int]*big.Float{}
)

func pow10(k int) *big.Float {
	bigMu.Lock()
	defer bigMu.Unlock()
	if p := bigPow[k]; p != nil {
		return p
	}
	p := new(big.Float).SetPrec(bigW).SetInt(new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(k)), nil))
	bigPow[k] = p
	return p
}

func fastText(x *big.Float, f byte, prec int) (string, bool) {
	if f != 'g' && f != 'e' || prec < 2 || prec > 60 || x == nil || x.IsInf() || x.Sign() == 0 || x.Prec() > 150 {
		return "", false
	}
	e2 := x.MantExp(nil)
	if e2 > -400 && e2 < 600 || e2 > 40000 || e2 < -40000 {
		return "", false
	}
	n := prec
	if f == 'e' {
		n++
	}
	// x = m * 2**e2, 1/2 <= m < 1.
	d := int(float64(e2) * 0.30102999566398119521) // the decimal exponent, about
	ax := new(big.Float).SetPrec(bigW).Abs(x)
	y := new(big.Float).SetPrec(bigW)
	lo, hi := pow10(n-1), pow10(n)
	for try := 0; ; try++ {
		if try == 5 {
			return "", false
		}
		k := n - 1 - d
		if k >= 0 {
			y.Mul(ax, pow10(k))
		} else {
			y.Quo(ax, pow10(-k))
		}
		if y.Cmp(lo) < 0 {
			d--
			continue
		}
		if y.Cmp(hi) >= 0 {
			d++
			continue
		}
		break
	}
	q, _ := y.Int(nil)
	fr := new(big.Float).SetPrec(bigW).Sub(y, new(big.Float).SetPrec(bigW).SetInt(q))
	ff, _ := fr.Float64()
	const eps = 1e-9
	if ff < eps || ff > 1-eps || ff > 0.5-eps && ff < 0.5+eps {
		return "", false
	}
	if ff > 0.5 {
		q.Add(q, big.NewInt(1))
	}
	ds := q.Append(make([]byte, 0, 80), 10)
	if len(ds) > n {
		d++
		ds = ds[:n]
	}
	m := len(ds)
	if f == 'g' {
		for m > 1 && ds[m-1] == '0' {
			m--
		}
	}
	out := make([]byte, 0, 80)
	if x.Signbit() {
		out = append(out, '-')
	}
	out = append(out, ds[0])
	if m > 1 {
		out = append(out, '.')
		out = append(out, ds[1:m]...)
	}
	out = append(out, 'e')
	if d < 0 {
		out = append(out, '-')
		d = -d
	} else {
		out = append(out, '+')
	}
	if d < 10 {
		out = append(out, '0')
	}
	return string(strconv.AppendInt(out, int64(d), 10)), true
}
