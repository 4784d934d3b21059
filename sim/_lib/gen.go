package main

import (
	"fmt"
	"strings"

	rt "github.com/mewmew/float/zzsim/rt"
	"github.com/mewmew/float/zzsim/work"
)

// Scenario is one complete simulated run: everything that decides it.
type Scenario struct {
	Property string    `json:"property"`
	Run      int64     `json:"run"`
	Seed     uint64    `json:"seed"`
	Kind     string    `json:"kind"`
	Race     bool      `json:"race,omitempty"`
	Specs    []BigSpec `json:"specs,omitempty"`
	Tasks    [][]Op    `json:"tasks"`
	Wins     []Window  `json:"windows,omitempty"`
	Grow     *Grow     `json:"growth,omitempty"`
	Surr     *Surr     `json:"surroundings,omitempty"`

	Mode       int           `json:"mode"`
	Mean       int64         `json:"mean"`
	Changes    int           `json:"changes"`
	WatchKind  int           `json:"watch"`
	StallPct   int           `json:"stall_pct"`
	StallLen   int           `json:"stall_len"`
	PoolFaults bool          `json:"pool_faults"`
	ClockJumps bool          `json:"clock_jumps"`
	SchedSeed  uint64        `json:"sched_seed"`
	Replay     bool          `json:"replay,omitempty"`
	Decisions  []rt.Decision `json:"decisions,omitempty"`
	Choices    []int64       `json:"choices,omitempty"`
}

// Window is one caller's part of the shared array.
type Window struct {
	Off, Cap, Len int
}

var groupFns = map[string][]string{}

func init() {
	for n, d := range fns {
		groupFns[d.group] = append(groupFns[d.group], n)
	}
	for _, l := range groupFns {
		sortStrings(l)
	}
}

func sortStrings(l []string) {
	for i := 1; i < len(l); i++ {
		for j := i; j > 0 && l[j] < l[j-1]; j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
}

var allGroups = []string{"b16", "b128", "f80", "ppc", "bf", "exact", "ftoa", "itoa", "app"}

type generator struct {
	r    *rt.Rand
	sc   *Scenario
	f64  []uint64
	b16  []uint64
	b128 [][2]uint64
	x87  [][2]uint64
	ppc  [][2]uint64
	ints []uint64
	fmts []Op
	base []int
	sp   []int
}

// values fills the pools: n clusters.
func (g *generator) values(n int) {
	r := g.r
	for i := 0; i < n; i++ {
		v := f64Value(r)
		g.f64 = append(g.f64, v)
		for k := r.Intn(4); k > 0; k-- {
			g.f64 = append(g.f64, near(r, v))
		}
		h := bits16Value(r)
		g.b16 = append(g.b16, h)
		for k := r.Intn(3); k > 0; k-- {
			g.b16 = append(g.b16, near(r, h)&0xFFFF)
		}
		pair := func(f func(*rt.Rand) (uint64, uint64), m uint64) (l [][2]uint64) {
			a, b := f(r)
			l = append(l, [2]uint64{a, b})
			for k := r.Intn(4); k > 0; k-- {
				c, d := a, b
				switch r.Intn(4) {
				case 0:
					c = near(r, a)
				case 1:
					d = near(r, b)
				case 2:
					c, _ = f(r)
				case 3:
					_, d = f(r)
				}
				l = append(l, [2]uint64{c & m, d})
			}
			return l
		}
		g.b128 = append(g.b128, pair(b128Value, ^uint64(0))...)
		g.x87 = append(g.x87, pair(x87Value, 0xFFFF)...)
		g.ppc = append(g.ppc, pair(ppcValue, ^uint64(0))...)
		iv := intValue(r)
		g.ints = append(g.ints, iv)
		for k := r.Intn(3); k > 0; k-- {
			g.ints = append(g.ints, near(r, iv), -iv)
		}
		g.base = append(g.base, baseValue(r))
		var o Op
		fmtArgs(r, &o)
		g.fmts = append(g.fmts, o)
		for k := r.Intn(3); k > 0; k-- {
			p := o
			switch r.Intn(3) {
			case 0:
				p.Bits = []int{16, 32, 64}[r.Intn(3)]
			case 1:
				p.Fmt = int(fmtBytes[r.Intn(len(fmtBytes))])
			case 2:
				p.Prec = r.Intn(20) - 1
			}
			g.fmts = append(g.fmts, p)
		}
	}
	// Argument specifications around the float64 values.
	for _, v := range g.f64 {
		for k := 1 + r.Intn(2); k > 0; k-- {
			s := bigSpec(r, v, false)
			g.addSpec(s)
			for j := r.Intn(3); j > 0; j-- {
				t := s
				switch r.Intn(5) {
				case 0:
					t.Prec = precs[r.Intn(len(precs))]
				case 1:
					t.Mode = uint8(r.Intn(6))
				case 2:
					t.PPrec = precs[r.Intn(len(precs))]
				case 3:
					if t.Text[0] == '-' {
						t.Text = t.Text[1:]
					} else if t.Text != "nil" {
						t.Text = "-" + t.Text
					}
				case 4:
					t = bigSpec(r, v, false)
				}
				g.addSpec(t)
			}
		}
		if len(g.sc.Specs) > 400 {
			break
		}
	}
}

func (g *generator) addSpec(s BigSpec) {
	g.sc.Specs = append(g.sc.Specs, s)
	g.sp = append(g.sp, len(g.sc.Specs))
}

// op draws a call of the function.
func (g *generator) op(fn string) Op {
	r := g.r
	o := Op{Fn: fn}
	switch fns[fn].kind {
	case kBits16:
		o.A = g.b16[r.Intn(len(g.b16))]
	case kBits128:
		p := g.b128[r.Intn(len(g.b128))]
		o.A, o.B = p[0], p[1]
	case kBitsX87:
		p := g.x87[r.Intn(len(g.x87))]
		o.A, o.B = p[0], p[1]
	case kBitsPPC:
		p := g.ppc[r.Intn(len(g.ppc))]
		o.A, o.B = p[0], p[1]
	case kF32:
		v := g.f64[r.Intn(len(g.f64))]
		o.A = uint64(f32bits(v))
	case kF64:
		o.A = g.f64[r.Intn(len(g.f64))]
	case kBig:
		o.X = g.sp[r.Intn(len(g.sp))]
	case kFmt, kAppFmt:
		f := g.fmts[r.Intn(len(g.fmts))]
		o.A = g.f64[r.Intn(len(g.f64))]
		o.Fmt, o.Prec, o.Bits = f.Fmt, f.Prec, f.Bits
	case kInt, kAppInt:
		o.A = g.ints[r.Intn(len(g.ints))]
		o.Base = g.base[r.Intn(len(g.base))]
	case kItoa:
		o.A = g.ints[r.Intn(len(g.ints))]
	}
	if k := fns[fn].kind; k == kAppFmt || k == kAppInt {
		o.DLen = r.Intn(40)
		if r.Intn(3) == 0 {
			o.DLen = 0
		}
		o.DCap = o.DLen
		switch r.Intn(4) {
		case 0:
		case 1:
			o.DCap += r.Intn(12)
		case 2:
			o.DCap += r.Intn(40)
		case 3:
			o.DCap += 64
		}
		o.DEmpty = r.Intn(2) == 0
	}
	return o
}

// panicker draws a call that is expected to panic.
func (g *generator) panicker(groups map[string]bool) Op {
	r := g.r
	for {
		var o Op
		switch r.Intn(10) {
		case 0, 1:
			o = g.op("FormatFloat")
			o.Bits = []int{0, 8, 128, 80, -1, 17}[r.Intn(6)]
		case 2:
			o = g.op("AppendFloat")
			o.Bits = []int{0, 8, 128, 80}[r.Intn(4)]
		case 3:
			o = g.op([]string{"FormatInt", "FormatUint"}[r.Intn(2)])
			o.Base = []int{0, 1, 37, -1, 64}[r.Intn(5)]
		case 4:
			o = g.op([]string{"AppendInt", "AppendUint"}[r.Intn(2)])
			o.Base = []int{0, 1, 37, -1}[r.Intn(4)]
		case 5:
			o = Op{Fn: []string{"IsExact16", "IsExact32", "IsExact64"}[r.Intn(3)]}
			o.X = g.special([]string{"Inf", "-Inf"}[r.Intn(2)])
		case 6, 7:
			o = Op{Fn: []string{"IsExact16", "IsExact32", "IsExact64", "b16.FromBig", "b128.FromBig", "f80.FromBig", "ppc.FromBig"}[r.Intn(7)]}
			o.X = g.special("nil")
		case 8:
			o = Op{Fn: []string{"ppc.Big", "ppc.Float32", "ppc.Float64"}[r.Intn(3)], A: 0x7FF0_0000_0000_0000, B: 0xFFF0_0000_0000_0000}
		case 9:
			o = g.op("FormatFloat")
			o.Prec = 1 << 60
		}
		if groups == nil || groups[fns[o.Fn].group] || r.Intn(4) == 0 {
			return o
		}
	}
}

func (g *generator) special(text string) int {
	for i, s := range g.sc.Specs {
		if s.Text == text {
			return i + 1
		}
	}
	g.sc.Specs = append(g.sc.Specs, BigSpec{Text: text, PPrec: 53})
	return len(g.sc.Specs)
}

func generate(prop string, seed uint64, run int64, race bool) *Scenario {
	var r rt.Rand
	r.Seed(work.MixS(work.Mix(seed, uint64(run)), prop))
	sc := &Scenario{Property: prop, Run: run, Seed: seed, Race: race}
	g := &generator{r: &r, sc: sc}
	if prop == "C22" {
		g.grow()
		return sc
	}

	// Which parts of the library take part.
	groups := map[string]bool{}
	pickGroup := func(l []string) { groups[l[r.Intn(len(l))]] = true }
	cand := allGroups
	switch prop {
	case "C02":
		cand = []string{"b16", "b128", "f80", "ppc", "exact"}
	case "C03":
		cand = []string{"b16", "b128", "f80", "ppc", "bf", "exact", "ftoa", "itoa", "app", "app", "app", "b16", "b128", "f80", "ppc", "bf"}
	case "C06":
		cand = []string{"app"}
	}
	switch r.Intn(4) {
	case 0:
		pickGroup(cand)
	case 1, 2:
		pickGroup(cand)
		pickGroup(cand)
	case 3:
		for n := 1 + r.Intn(len(cand)); n > 0; n-- {
			pickGroup(cand)
		}
	}
	if prop == "C06" && r.Intn(3) == 0 {
		groups["ftoa"] = true
		groups["itoa"] = true
	}

	// Sizes.
	nt, no, nv, np := 1, 1, 1, 1
	panicPct := 0
	history := false
	switch prop {
	case "C04":
		history = true
	case "C24":
		history = r.Intn(3) > 0
	case "C25":
		history = r.Intn(8) > 0
	case "C07":
		history = r.Intn(3) == 0
	case "C03":
		history = r.Intn(2) == 0
	}
	if history {
		sc.Kind = "history"
		nt = 1
		if r.Intn(6) == 0 {
			nt = 2 + r.Intn(2)
		}
		switch r.Intn(20) {
		case 0: // marathon
			no = 4000 + r.Intn(12000)
			np = 4 + r.Intn(40)
			nv = 1 + r.Intn(4)
		case 1, 2, 3: // sweep over many values
			no = 300 + r.Intn(1500)
			np = no
			nv = 100 + r.Intn(200)
		case 4, 5, 6, 7, 8: // few hot values
			no = 10 + r.Intn(120)
			np = 2 + r.Intn(12)
			nv = 1 + r.Intn(2)
		default:
			no = 20 + r.Intn(400)
			np = 5 + r.Intn(60)
			nv = 2 + r.Intn(12)
		}
		if prop == "C25" && no > 300 {
			no = 300
		}
		no = no/nt + 1
		switch r.Intn(3) {
		case 0:
			panicPct = 0
		case 1:
			panicPct = 3
		case 2:
			panicPct = 15
		}
		if prop == "C03" {
			panicPct = 0
		}
	} else {
		sc.Kind = "concurrent"
		switch r.Intn(8) {
		case 0, 1, 2:
			nt, no = 2, 1+r.Intn(6)
		case 3, 4:
			nt, no = 3+r.Intn(2), 1+r.Intn(8)
		case 5, 6:
			nt, no = 4+r.Intn(5), 1+r.Intn(6)
		case 7:
			nt, no = 9+r.Intn(16), 1+r.Intn(3)
		}
		np = 1 + r.Intn(10)
		nv = 1 + r.Intn(4)
		if r.Intn(10) == 0 {
			np, nv, no = 40, 12, no*4
		}
		switch prop {
		case "C24", "C25":
			panicPct = []int{0, 5, 30}[r.Intn(3)]
		case "C05":
			panicPct = []int{0, 10, 30}[r.Intn(3)]
		case "C07":
			panicPct = []int{10, 30, 50}[r.Intn(3)]
		case "C01":
			panicPct = []int{0, 0, 5}[r.Intn(3)]
		}
	}
	if prop == "C02" && nt > 6 {
		nt = 6
	}
	if prop == "C07" && panicPct == 0 {
		panicPct = 5
	}
	g.values(nv)

	// The pool of calls.
	var names []string
	for _, gn := range allGroups {
		if groups[gn] {
			names = append(names, groupFns[gn]...)
		}
	}
	if prop == "C02" {
		var l []string
		for _, n := range names {
			if fns[n].kind == kBig {
				l = append(l, n)
			}
		}
		if r.Intn(4) > 0 {
			names = l
		} else {
			names = append(names, l...)
		}
	}
	// Sometimes only a few functions.
	if r.Intn(2) == 0 && len(names) > 2 {
		k := 1 + r.Intn(3)
		var l []string
		for i := 0; i < k; i++ {
			l = append(l, names[r.Intn(len(names))])
		}
		names = l
	}
	var pool []Op
	for i := 0; i < np; i++ {
		if i > 0 && r.Intn(4) == 0 {
			pool = append(pool, g.confuse(pool[r.Intn(i)], names))
			continue
		}
		pool = append(pool, g.op(names[r.Intn(len(names))]))
	}
	var panics []Op
	if panicPct > 0 {
		for i := 0; i < 1+r.Intn(4); i++ {
			panics = append(panics, g.panicker(groups))
		}
	}
	ownPct, keepPct := 0, 0
	if prop == "C03" {
		ownPct = 20 + r.Intn(80)
		keepPct = 20 + r.Intn(80)
	}
	sharePct := 100
	if prop == "C03" || prop == "C04" || prop == "C07" || prop == "C24" || r.Intn(3) == 0 {
		sharePct = r.Intn(100)
	}
	megaPct := 0 // one in so many histories repeats a call very often
	if history && nt == 1 {
		switch prop {
		case "C04":
			megaPct = 250
		case "C24":
			megaPct = 100
		case "C03", "C07":
			megaPct = 1500
		}
	}
	hot := r.Intn(3) == 0
	sweep := np == no
	switch {
	case history && r.Intn(12) == 0, prop == "C05" && r.Intn(400) == 0, prop == "C01" && !race && r.Intn(1000) == 0:
		pool = g.flood(names[r.Intn(len(names))], prop)
		sc.Kind += ", flood"
		no = len(pool) + r.Intn(len(pool)/4+1)
		sweep = true
		if nt > 2 {
			nt = 2
		}
	case (prop == "C04" || prop == "C24") && nt == 1 && r.Intn(16) == 0:
		sc.Kind += ", gaps"
		pool = g.gaps(names)
		no = len(pool)
		sweep = true
		hot = false
		megaPct = 0
	}
	inOrder := strings.HasSuffix(sc.Kind, "gaps") || strings.HasSuffix(sc.Kind, "flood") && r.Intn(2) == 0
	for t := 0; t < nt; t++ {
		var l []Op
		for k := 0; k < no; k++ {
			i := r.Intn(len(pool))
			if hot && r.Intn(2) == 0 {
				i = i % (1 + len(pool)/4)
			}
			if sweep && (inOrder && k < len(pool) || r.Intn(3) > 0) {
				i = k % len(pool)
			}
			o := pool[i]
			if len(panics) > 0 && r.Intn(100) < panicPct {
				o = panics[r.Intn(len(panics))]
			}
			if o.X > 0 && r.Intn(100) >= sharePct {
				o.Slot = 1 + r.Intn(3)
			}
			if ownPct > 0 && r.Intn(100) < ownPct {
				o.Own = r.Uint64() | 1
			}
			if keepPct > 0 && r.Intn(100) < keepPct {
				o.Keep = true
			}
			if k := fns[o.Fn].kind; (k == kAppFmt || k == kAppInt) && r.Intn(100) >= sharePct {
				o.DSlot = 1 + r.Intn(3)
			}
			l = append(l, o)
		}
		if megaPct > 0 && r.Intn(megaPct) == 0 {
			if len(l) > 12 {
				l = l[:12]
			}
			for n := 1 + r.Intn(2); n > 0; n-- {
				l[r.Intn(len(l))].Rep = []int{100, 300, 1100, 5000, 20_000, 70_000, 140_000}[r.Intn(7)]
			}
		}
		for i := range l {
			if !history && i > 20 {
				break
			}
			if prop == "C07" && l[i].Rep == 0 && r.Intn(20) == 0 || prop == "C05" && r.Intn(40) == 0 {
				for j := range panics {
					if sameCall(&panics[j], &l[i]) {
						l[i].Rep = []int{2, 5, 20, 70, 130}[r.Intn(5)]
						if !history && l[i].Rep > 20 {
							l[i].Rep = 20
						}
					}
				}
			}
		}
		if history && nt == 1 && r.Intn(4) == 0 && len(l) > 4 {
			l[r.Intn(len(l))] = Op{Fn: "restart"}
		}
		sc.Tasks = append(sc.Tasks, l)
	}
	if prop == "C06" {
		g.windows()
	}

	if prop == "C25" {
		sc.Surr = surroundings(&r)
	}

	// The schedule.
	sc.SchedSeed = r.Uint64()
	sc.PoolFaults = r.Intn(2) == 0
	sc.ClockJumps = r.Intn(2) == 0
	if history && nt == 1 || history && r.Intn(2) == 0 {
		sc.Mode = 0
		return sc
	}
	sc.Mode = []int{1, 1, 1, 2, 2, 3, 3, 3, 4, 5, 5}[r.Intn(11)]
	if prop == "C06" && r.Intn(6) == 0 {
		sc.Mode = 0
	}
	sc.Mean = []int64{1, 2, 4, 8, 20, 60, 200, 800}[r.Intn(8)]
	sc.Changes = 1 + r.Intn(6)
	sc.WatchKind = r.Intn(4)
	if r.Intn(2) == 0 || prop == "C05" {
		sc.StallPct = []int{1, 5, 20}[r.Intn(3)]
	}
	sc.StallLen = []int{2, 8, 40, 200}[r.Intn(4)]
	return sc
}

func sameCall(a, b *Op) bool {
	return a.Fn == b.Fn && a.A == b.A && a.B == b.B && a.X == b.X && a.Fmt == b.Fmt && a.Prec == b.Prec && a.Bits == b.Bits && a.Base == b.Base
}

// flood gives many calls of one function which differ in the number only.
func (g *generator) flood(fn, prop string) []Op {
	r := g.r
	n := []int{70, 140, 300, 600, 1200, 3000}[r.Intn(6)]
	if k := fns[fn].kind; k == kBig || prop != "C04" {
		n = n/4 + 200
	}
	o := g.op(fn)
	step := []uint64{1, 1, 3, 1 << 4, 1 << 10, 1 << 20, 1 << 32, 1 << 42, 1 << 48, 0}[r.Intn(10)]
	dir := r.Intn(2)
	pool := []Op{}
	for i := 0; i < n; i++ {
		p := o
		switch fns[fn].kind {
		case kBig:
			s := g.sc.Specs[o.X-1]
			if step == 0 {
				s = bigSpec(r, r.Uint64(), false)
			} else {
				s.Text = fmt.Sprintf("0x%Xp%d", uint64(i)*step+1, r.Intn(2))
			}
			g.sc.Specs = append(g.sc.Specs, s)
			p.X = len(g.sc.Specs)
		default:
			d := uint64(i) * step
			if step == 0 {
				d = r.Uint64()
			}
			switch fns[fn].kind {
			case kBits16:
				d = d>>10 + d>>5 + d
				p.A = (o.A + d) & 0xFFFF
			case kF32:
				p.A = uint64(uint32(o.A + d + d>>20))
			case kBitsX87, kBits128, kBitsPPC:
				if dir == 0 {
					p.B += d
				} else {
					p.A += d
					if fns[fn].kind == kBitsX87 {
						p.A = (o.A + d + d>>32) & 0xFFFF
					}
				}
			default:
				p.A = o.A + d
				if dir == 1 && step != 0 {
					p.A = o.A - d
				}
			}
		}
		pool = append(pool, p)
	}
	return pool
}

// gaps gives a few calls at distances of about a power of two.
func (g *generator) gaps(names []string) []Op {
	r := g.r
	probes := []Op{g.op(names[r.Intn(len(names))])}
	for k := 1 + r.Intn(3); k > 0; k-- {
		p := probes[0]
		q := g.op(p.Fn)
		switch r.Intn(4) {
		case 0:
			p.A, p.B, p.X = q.A, q.B, q.X
		case 1, 2:
			p.Base, p.Fmt, p.Prec, p.Bits = q.Base, q.Fmt, q.Prec, q.Bits
		default:
			p = q
		}
		probes = append(probes, p)
	}
	if k := fns[probes[0].Fn].kind; k == kInt || k == kAppInt {
		hi := uint64(0)
		if r.Intn(2) == 0 {
			hi = 1 << uint(30+r.Intn(33))
		}
		for i := range probes {
			probes[i].A |= hi
			if r.Intn(2) == 0 {
				probes[i].Base = 3 + r.Intn(34)
			}
		}
	}
	fill := []Op{g.op(names[r.Intn(len(names))])}
	if r.Intn(2) == 0 {
		fill[0] = g.op(probes[0].Fn)
	}
	if r.Intn(2) == 0 {
		q := g.op(fill[0].Fn)
		p := fill[0]
		p.Base, p.Fmt, p.Prec, p.Bits = q.Base, q.Fmt, q.Prec, q.Bits
		fill = append(fill, p)
	}
	if r.Intn(2) == 0 {
		// Calls like the probes, for other numbers.
		fill = append([]Op(nil), probes[:2-r.Intn(4)/3]...)
		q := g.op(fill[0].Fn)
		for i := range fill {
			if fill[i].X > 0 {
				fill[i].X = q.X
			} else if r.Intn(2) == 0 {
				fill[i].A ^= 1 << uint(r.Intn(64))
			} else {
				fill[i].A = near(r, fill[i].A)
			}
			if fns[fill[i].Fn].kind == kBits16 || fns[fill[i].Fn].kind == kBitsX87 {
				fill[i].A &= 0xFFFF
			} else if fns[fill[i].Fn].kind == kF32 {
				fill[i].A = uint64(uint32(fill[i].A))
			}
		}
	}
	var l []Op
	wide := false
	for len(l) < 1200 {
		for k := 1 + r.Intn(2); k > 0; k-- {
			l = append(l, probes[r.Intn(len(probes))])
		}
		n := 1<<uint([]int{3, 4, 5, 6, 7, 8, 8, 8, 9, 10}[r.Intn(10)]) + r.Intn(7) - 4
		if len(fill) == 1 {
			f := fill[0]
			if !wide && r.Intn(60) == 0 {
				wide = true
				n = 1<<16 + r.Intn(5) - 3
			}
			if n > 0 {
				f.Rep = n - 1
			}
			l = append(l, f)
			if len(l) > 60 {
				break
			}
			continue
		}
		for i := 0; i < n; i++ {
			l = append(l, fill[i%len(fill)])
		}
	}
	return l
}

// windows turns the tasks' appends into appends to windows of a shared array.
func (g *generator) windows() {
	r := g.r
	off := 4 + r.Intn(8)
	for t := range g.sc.Tasks {
		w := Window{Off: off, Cap: r.Intn(120), Len: 0}
		if w.Cap > 0 && r.Intn(2) == 0 {
			w.Len = r.Intn(w.Cap + 1)
		}
		off += w.Cap
		if r.Intn(2) == 0 {
			off += r.Intn(9) // else the next window is adjacent
		}
		g.sc.Wins = append(g.sc.Wins, w)
		for i := range g.sc.Tasks[t] {
			o := &g.sc.Tasks[t][i]
			if fns[o.Fn].group == "app" && r.Intn(5) > 0 {
				o.Win = true
				o.DLen, o.DCap = 0, 0
			}
		}
	}
	g.sc.Wins = append(g.sc.Wins, Window{Off: off, Cap: 4 + r.Intn(12)})
}
