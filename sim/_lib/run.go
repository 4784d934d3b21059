package main

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"os"
	"sort"
	"strings"

	rt "github.com/mewmew/float/zzsim/rt"
	"github.com/mewmew/float/zzsim/work"
)

func f32bits(v uint64) uint32 { return math.Float32bits(float32(math.Float64frombits(v))) }

// alone results, per call.
type aloneRes struct {
	enc    []byte
	steps  int64
	hang   string
	panics bool
	sites  []int32

	effects []rt.Effect
}

type world struct {
	prop     string
	meta     *work.Meta
	rep      *work.Report
	memo     map[string]*aloneRes
	race     bool
	racelog  string
	raceN    int
	specials []byte
	before   []uint32
}

const aloneLimit = 4_000_000

// alone makes the call as the only call of a fresh process.
func (w *world) alone(o *Op, specs []BigSpec, key []byte) *aloneRes {
	if a, ok := w.memo[string(key)]; ok {
		return a
	}
	if len(w.memo) > 100_000 {
		w.memo = map[string]*aloneRes{}
	}
	w.before = append(w.before[:0], rt.Hits...)
	a := w.aloneOnce(o, specs, 1)
	for i, n := range w.before {
		if rt.Hits[i] != n {
			a.sites = append(a.sites, int32(i))
		}
	}
	if w.prop == "C04" && a.hang == "" {
		if hashBytes(key)%8 == 0 {
			// The answer may not depend on the rest of the process either.
			b := w.aloneOnce(o, specs, work.MixS(77, string(key)))
			w.rep.Stats["alone_in_varied_process"]++
			if !bytes.Equal(a.enc, b.enc) {
				a.hang = fmt.Sprintf("VARIES: %s in one fresh process, %s in another", clip(a.enc), clip(b.enc))
			}
		}
	}
	w.memo[string(key)] = a
	return a
}

func clip(b []byte) string {
	if len(b) > 300 {
		return fmt.Sprintf("%q...(%d bytes)", b[:300], len(b))
	}
	return fmt.Sprintf("%q", b)
}

func (w *world) aloneOnce(o *Op, specs []BigSpec, seed uint64) *aloneRes {
	w.rep.Stats["alone_runs"]++
	var x *big.Float
	if o.X > 0 {
		x = specs[o.X-1].build()
	}
	_, dst := privateDst(o)
	var r out
	c := &rt.Config{Seed: seed, FairAfter: 1 << 40, NumCPU: 4, Mode: 0, Init: resetAll}
	c.FairAfter, c.MaxFair = aloneLimit, 1000
	if seed != 1 {
		c.NumCPU = 1 + int(seed%16)
		c.ClockJumps = true
		c.PoolFaults = true
	}
	c.Effects = w.prop == "C24"
	res := rt.Run(c, []func(){func() { exec(o, x, dst, &r) }})
	a := &aloneRes{steps: res.Steps}
	if c.Effects {
		rt.EffectsAtEnd()
		if l := rt.Effects(); len(l) > 0 {
			a.effects = append([]rt.Effect(nil), l...)
		}
	}
	switch {
	case res.Deadlock:
		a.hang = "blocks for ever: " + strings.Join(res.Stuck, "; ")
	case res.Livelock:
		a.hang = "does not finish"
	}
	if res.Crash != "" {
		r.enc = append(r.enc, (" crash " + res.Crash)...)
	}
	a.enc = append([]byte(nil), r.enc...)
	a.panics = r.panic
	return a
}

// patternText is what destinations hold before a call: mostly text such as
// numbers consist of, with runs that careless rounding or trimming would eat.
const patternText = "0.999e+00-12345000.0,9999e-07 NaN+Inf%g 1p-1074\x00\xffEeGg00000999.0-0e+308zZ aaAA//::..--++,0x1F99"

func pattern(i int) byte { return patternText[i%len(patternText)] }

// privateDst is a destination slice of its own, with a canary behind its
// capacity.
func privateDst(o *Op) (backing, dst []byte) {
	k := fns[o.Fn].kind
	if k != kAppFmt && k != kAppInt {
		return nil, nil
	}
	if o.DCap == 0 && !o.DEmpty {
		return nil, nil
	}
	backing = make([]byte, o.DCap+16)
	for i := range backing {
		backing[i] = pattern(i)
	}
	return backing, backing[:o.DLen:o.DCap]
}

// finding is a candidate violation.
type finding struct {
	oracle string
	sig    string
	detail string
	task   int
	op     int
}

// oracles that speak for each property.
var oracles = map[string]map[string]bool{
	"C01": {"result": true, "race": true, "hang": true, "crash": true},
	"C02": {"argument": true},
	"C03": {"result": true, "held": true, "special": true},
	"C04": {"result": true, "special": true, "hang": true, "crash": true, "varies": true},
	"C05": {"hang": true},
	"C06": {"window": true, "text": true},
	"C22": {"growth": true},
	"C07": {"result": true, "hang": true, "special": true, "crash": true},
	"C24": {"effect": true, "crash": true},
	"C25": {"result": true, "hang": true, "special": true, "crash": true},
}

type heldRes struct {
	s     snap
	str   string
	strC  string
	b     []byte
	bC    []byte
	op    int
	isBig bool
}

type taskState struct {
	slots  [4]*big.Float
	bufs   [4][]byte // destinations used again and again
	guard  *snap     // the argument of the call in progress
	gs     snap
	held   []heldRes
	dig    uint64
	find   *finding
	back   []byte // private destination in use
	dlen   int
	dcap   int
	winLen int
	winIn  bool
	cur    *Op
	opI    int
	calls  int64
	panics int64
	hit    map[string]int64
	muts   int64
}

type outcome struct {
	find  *finding
	res   *rt.Result
	dig   uint64
	steps int64
}

type runState struct {
	w          *world
	sc         *Scenario
	exp        [][][]byte
	ts         []*taskState
	touch      []int32 // calls that visit each site
	shared     []*big.Float
	sharedSnap []snap
	master     []*big.Float
	arena      []byte
	shadow     []byte
	early      *finding
}

func (rs *runState) note(t *taskState, ti int, oracle, sig, detail string) {
	if !oracles[rs.sc.Property][oracle] {
		return
	}
	if t.find == nil {
		t.find = &finding{oracle: oracle, sig: sig, detail: detail, task: ti, op: t.opI}
	}
}

// repSteps bounds the steps spent on repeating one call.
const repSteps = 20_000_000

// prepare computes what every call must return.
func (w *world) prepare(sc *Scenario) (*runState, int64) {
	rs := &runState{w: w, sc: sc}
	est := int64(0)
	var kb []byte
	for ti, l := range sc.Tasks {
		var e [][]byte
		for oi := range l {
			o := &l[oi]
			if o.Fn == "restart" {
				e = append(e, nil)
				continue
			}
			probe := *o
			if f, ok := formatOf[o.Fn]; ok && sc.Property == "C06" {
				probe.Fn = f
				probe.DLen, probe.DCap = 0, 0
			}
			kb = probe.key(sc.Specs, kb[:0])
			a := w.alone(&probe, sc.Specs, kb)
			if len(a.effects) > 0 && rs.early == nil && sc.Property == "C24" {
				e := a.effects[0]
				what := probe.describe(sc.Specs) + ", called alone in a fresh process,"
				if e.Task < 0 {
					what = "importing the library"
				}
				rs.early = &finding{oracle: "effect", sig: "effect:" + e.Kind, detail: what + " " + e.Text, task: ti, op: oi}
			}
			if a.hang != "" && rs.early == nil {
				oracle := "hang"
				if strings.HasPrefix(a.hang, "VARIES") {
					oracle = "varies"
				}
				if oracle == "varies" && sc.Property == "C04" || oracle == "hang" && sc.Property == "C05" {
					rs.early = &finding{oracle: oracle, sig: oracle + ":alone:" + o.Fn, detail: fmt.Sprintf("%s, called alone in a fresh process, %s", probe.describe(sc.Specs), a.hang), task: ti, op: oi}
				} else {
					rs.early = &finding{oracle: "skip"}
				}
			}
			e = append(e, a.enc)
			if lim := repSteps / (a.steps + 50); !sc.Replay && int64(o.Rep) > lim {
				o.Rep = int(lim)
			}
			est += (a.steps + 1) * int64(o.Rep+1)
			if sc.Mode == 3 && !sc.Replay {
				if rs.touch == nil {
					rs.touch = make([]int32, len(w.meta.Sites))
				}
				for _, s := range a.sites {
					rs.touch[s]++
				}
			}
		}
		rs.exp = append(rs.exp, e)
	}
	return rs, est
}

func (rs *runState) hookCheck() {
	id := rt.CurID()
	if id >= 0 && id < len(rs.ts) {
		rs.checkTask(id, true)
		return
	}
	for i := range rs.ts {
		rs.checkTask(i, true)
	}
}

func (rs *runState) checkTask(i int, during bool) {
	t := rs.ts[i]
	if t.guard != nil && !t.guard.same() {
		when := "while the call was in progress"
		if !during {
			when = "when the call had returned"
		}
		rs.note(t, i, "argument", "argument:"+t.cur.Fn, fmt.Sprintf("%s: its argument read %s %s; the caller had put %s there", t.cur.describe(rs.sc.Specs), encBig(nil, t.guard.p), when, t.guard))
		t.guard = nil
	}
	if rs.arena != nil {
		rs.checkArena(i)
	}
	if t.back != nil {
		for k := 0; k < t.dlen; k++ {
			if t.back[k] != pattern(k) {
				rs.note(t, i, "window", "window:content:"+t.cur.Fn, fmt.Sprintf("%s changed byte %d of the existing content", t.cur.describe(rs.sc.Specs), k))
				t.back = nil
				return
			}
		}
		for k := t.dcap; k < len(t.back); k++ {
			if t.back[k] != pattern(k) {
				rs.note(t, i, "window", "window:beyond:"+t.cur.Fn, fmt.Sprintf("%s wrote %d byte(s) beyond the capacity of its destination", t.cur.describe(rs.sc.Specs), k-t.dcap+1))
				t.back = nil
				return
			}
		}
	}
}

// checkArena compares everything no call in progress may write with what its
// owners put there.
func (rs *runState) checkArena(by int) {
	pos := 0
	bad := -1
	cmp := func(to int) {
		if bad < 0 && !bytes.Equal(rs.arena[pos:to], rs.shadow[pos:to]) {
			for i := pos; i < to; i++ {
				if rs.arena[i] != rs.shadow[i] {
					bad = i
					break
				}
			}
		}
	}
	for i, t := range rs.ts {
		if !t.winIn {
			continue
		}
		wn := rs.sc.Wins[i]
		cmp(wn.Off + t.winLen)
		pos = wn.Off + wn.Cap
	}
	cmp(len(rs.arena))
	if bad >= 0 {
		t := rs.ts[by]
		where := "a gap between the windows"
		for i := range rs.ts {
			wn := rs.sc.Wins[i]
			if bad >= wn.Off && bad < wn.Off+wn.Cap {
				where = fmt.Sprintf("the window of caller %d at index %d", i, bad-wn.Off)
			}
		}
		if t.cur != nil {
			rs.note(t, by, "window", "window:arena:"+t.cur.Fn, fmt.Sprintf("while caller %d was in %s (window of length %d, capacity %d): a byte of %s changed from 0x%02x to 0x%02x", by, t.cur.describe(rs.sc.Specs), t.winLen, rs.sc.Wins[by].Cap, where, rs.shadow[bad], rs.arena[bad]))
		}
		rs.arena[bad] = rs.shadow[bad]
	}
}

func (rs *runState) client(ti int) func() {
	return func() {
		t := rs.ts[ti]
		var r out
		for oi := range rs.sc.Tasks[ti] {
			o := &rs.sc.Tasks[ti][oi]
			rt.OpBoundary()
			t.opI = oi
			if o.Fn == "restart" {
				rt.Restart(resetAll)
				continue
			}
			for k := 0; k <= o.Rep; k++ {
				rs.call(t, ti, o, rs.exp[ti][oi], &r)
				if o.Rep > 0 && t.find != nil {
					break
				}
			}
		}
	}
}

func (rs *runState) call(t *taskState, ti int, o *Op, exp []byte, r *out) {
	var x *big.Float
	t.cur = o
	if o.X > 0 {
		m := rs.master[o.X-1]
		switch {
		case m == nil:
		case o.Slot == 0:
			x = rs.shared[o.X-1]
		default:
			if t.slots[o.Slot] == nil {
				t.slots[o.Slot] = new(big.Float)
			}
			x = t.slots[o.Slot]
			x.Copy(m)
		}
		takeSnap(x, &t.gs)
		t.guard = &t.gs
	}
	var dst []byte
	if o.Win {
		wn := rs.sc.Wins[ti]
		dst = rs.arena[wn.Off : wn.Off+t.winLen : wn.Off+wn.Cap]
		t.winIn = true
	} else {
		t.back, dst = privateDst(o)
		if o.DSlot > 0 && t.back != nil {
			// The caller uses one of its buffers again.
			if t.bufs[o.DSlot] == nil {
				t.bufs[o.DSlot] = make([]byte, 160)
			}
			copy(t.bufs[o.DSlot], t.back)
			t.back = t.bufs[o.DSlot][:len(t.back)]
			dst = t.back[:o.DLen:o.DCap]
		}
		t.dlen, t.dcap = o.DLen, o.DCap
	}
	exec(o, x, dst, r)
	t.calls++
	if r.panic {
		t.panics++
	}
	t.dig = work.Mix(t.dig, hashBytes(r.enc))
	if rs.sc.Property == "C02" || rs.sc.Property == "C06" {
		rs.checkTask(ti, false)
	}
	t.guard = nil
	t.back = nil
	if rs.sc.Property == "C06" {
		rs.checkText(t, ti, o, exp, dst, r)
	} else if !bytes.Equal(r.enc, exp) {
		rs.note(t, ti, "result", "result:"+o.Fn, fmt.Sprintf("%s returned %s; alone in a fresh process it returns %s", o.describe(rs.sc.Specs), clip(r.enc), clip(exp)))
	}
	if o.DSlot > 0 {
		// What the call returned is the caller's only until it uses the buffer
		// again.
		if r.bytes != nil && cap(r.bytes) > 0 && t.bufs[o.DSlot] != nil && cap(dst) > 0 && &r.bytes[:1][0] == &dst[:1][0] {
			r.bytes = nil
		}
	}
	if o.Keep || o.Own != 0 || len(t.held) > 0 {
		rs.own(t, ti, o, r)
	}
}

func hashBytes(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range b {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return h
}

// checkText: the result of an append is the old content and the formatted text.
func (rs *runState) checkText(t *taskState, ti int, o *Op, exp, dst []byte, r *out) {
	if fns[o.Fn].group != "app" {
		return
	}
	wn := Window{}
	if o.Win {
		wn = rs.sc.Wins[ti]
	}
	if r.panic {
		t.winIn = false
		if o.Win {
			copy(rs.shadow[wn.Off+t.winLen:wn.Off+wn.Cap], rs.arena[wn.Off+t.winLen:])
		}
		if !bytes.Equal(r.enc, exp) {
			rs.note(t, ti, "text", "text:"+o.Fn, fmt.Sprintf("%s ended with %s; the formatting call gives %s", o.describe(rs.sc.Specs), clip(r.enc), clip(exp)))
		}
		return
	}
	old := len(dst)
	ok := len(r.bytes) >= old && bytes.Equal(r.bytes[old:], exp)
	if ok {
		for k := 0; k < old; k++ {
			want := pattern(k)
			if o.Win {
				want = rs.shadow[wn.Off+k]
			}
			if r.bytes[k] != want {
				ok = false
			}
		}
	}
	if !ok {
		rs.note(t, ti, "text", "text:"+o.Fn, fmt.Sprintf("%s onto %d existing bytes gave %s; the formatting call gives %s", o.describe(rs.sc.Specs), old, clip(r.bytes), clip(exp)))
	}
	if !o.Win {
		return
	}
	// The owner takes stock of its window and goes on.
	if len(r.bytes) <= wn.Cap && len(r.bytes) > 0 && wn.Cap > 0 && &r.bytes[0] == &rs.arena[wn.Off] {
		t.winLen = len(r.bytes)
	} else {
		t.winLen = (t.winLen*5 + 3) % (wn.Cap + 1)
		for k := 0; k < t.winLen; k++ {
			rs.arena[wn.Off+k] = pattern(k + t.opI)
		}
	}
	copy(rs.shadow[wn.Off:wn.Off+wn.Cap], rs.arena[wn.Off:])
	t.winIn = false
}

// own does what the owner of results may do with them.
func (rs *runState) own(t *taskState, ti int, o *Op, r *out) {
	// Other results stay as they were.
	for i := range t.held {
		h := &t.held[i]
		if s := h.changed(); s != "" {
			rs.note(t, ti, "held", "held:"+o.Fn, fmt.Sprintf("the result caller %d holds from its call %d changed: %s; seen after %s", ti, h.op, s, o.describe(rs.sc.Specs)))
			h.resnap()
		}
	}
	if o.Own != 0 {
		for _, x := range r.bigs {
			mutate(x, o.Own)
			t.muts++
		}
		if r.bytes != nil {
			b := r.bytes[:cap(r.bytes)]
			for i := range b {
				b[i] ^= 0xEE
			}
			t.muts++
		}
		// An older result, too.
		if n := len(t.held); n > 0 && o.Own>>40&3 != 0 {
			h := &t.held[int(o.Own>>44)%n]
			if h.isBig {
				mutate(h.s.p, o.Own>>3)
				t.muts++
			} else if h.b != nil {
				b := h.b[:cap(h.b)]
				if o.Own>>52&1 == 0 {
					b = b[len(h.b):] // append to it
				}
				for i := range b {
					b[i]++
				}
				t.muts++
			}
			h.resnap()
		}
		// Mutating one may not change another.
		for i := range t.held {
			h := &t.held[i]
			if s := h.changed(); s != "" {
				rs.note(t, ti, "held", "held:"+o.Fn, fmt.Sprintf("the result caller %d holds from its call %d changed: %s; seen after the owner overwrote the result of %s", ti, h.op, s, o.describe(rs.sc.Specs)))
				h.resnap()
			}
		}
	}
	if o.Keep {
		for _, x := range r.bigs {
			if o.X > 0 && x == rs.shared[o.X-1] {
				continue
			}
			h := heldRes{isBig: true, op: t.opI}
			h.s.p = x
			t.held = append(t.held, h)
			t.held[len(t.held)-1].resnap()
		}
		if r.str != "" {
			t.held = append(t.held, heldRes{str: r.str, strC: string(append([]byte(nil), r.str...)), op: t.opI})
		}
		if r.bytes != nil {
			h := heldRes{b: r.bytes, op: t.opI}
			h.resnap()
			t.held = append(t.held, h)
		}
		for len(t.held) > 6 {
			t.held = append(t.held[:0], t.held[1:]...)
		}
	}
}

func (h *heldRes) changed() string {
	switch {
	case h.isBig:
		if !h.s.same() {
			return fmt.Sprintf("was %s, is %s", h.s.String(), encBig(nil, h.s.p))
		}
	case h.b != nil:
		if b := h.b[:cap(h.b)]; !bytes.Equal(b, h.bC) {
			if bytes.Equal(h.b, h.bC[:len(h.b)]) {
				return fmt.Sprintf("the spare capacity behind its %d bytes was written to", len(h.b))
			}
			return fmt.Sprintf("was %s, is %s", clip(h.bC[:len(h.b)]), clip(h.b))
		}
	default:
		if h.str != h.strC {
			return fmt.Sprintf("was %q, is %q", h.strC, h.str)
		}
	}
	return ""
}

func (h *heldRes) resnap() {
	if h.isBig {
		var s snap
		takeSnap(h.s.p, &s)
		h.s = s
	} else if h.b != nil {
		h.bC = append(h.bC[:0:0], h.b[:cap(h.b)]...)
	}
}

var bigOne = big.NewFloat(1)

// mutate overwrites x in place, through its methods.
func mutate(x *big.Float, how uint64) {
	defer func() { recover() }()
	for k := 0; k < 2; k++ {
		switch how >> (8 * k) & 15 {
		case 0, 1:
			x.Neg(x)
		case 2, 3, 4:
			x.SetPrec(64)
			x.SetUint64(how | 1<<63)
		case 5:
			x.Add(x, bigOne)
		case 6:
			x.SetPrec(3)
		case 7:
			x.SetMode(big.AwayFromZero)
		case 8:
			x.SetInf(how>>16&1 == 1)
		case 9:
			x.Mul(x, x)
		case 10:
			x.SetMantExp(x, 5)
		case 11:
			x.SetInt64(0)
		case 12:
			x.SetPrec(300)
			x.SetInt(new(big.Int).SetUint64(how | 1))
		case 13:
			x.Quo(x, big.NewFloat(3))
		case 14:
			x.SetFloat64(1.0 / 3)
		case 15:
			x.Sqrt(x.Abs(x))
		}
	}
}

func specialsNow() []byte {
	var r out
	var b []byte
	for _, n := range []string{"b16.Consts", "b128.Consts", "f80.Consts", "ppc.Consts"} {
		o := Op{Fn: n}
		exec(&o, nil, nil, &r)
		b = append(append(b, n...), r.enc...)
	}
	return b
}

// run executes a scenario.
func (w *world) run(sc *Scenario, keepTrace bool) *outcome {
	if sc.Grow != nil {
		return w.grow(sc)
	}
	rs, est := w.prepare(sc)
	if rs.early != nil {
		if rs.early.oracle == "skip" {
			w.rep.Stats["skipped_runs"]++
			return &outcome{res: &rt.Result{}}
		}
		return &outcome{find: rs.early, res: &rt.Result{}}
	}
	for i := range sc.Specs {
		m := sc.Specs[i].build()
		rs.master = append(rs.master, m)
		var s *big.Float
		if m != nil {
			s = sc.Specs[i].build()
		}
		rs.shared = append(rs.shared, s)
		var sn snap
		takeSnap(s, &sn)
		rs.sharedSnap = append(rs.sharedSnap, sn)
	}
	if len(sc.Wins) > 0 {
		last := sc.Wins[len(sc.Wins)-1]
		rs.arena = make([]byte, last.Off+last.Cap)
		for i := range rs.arena {
			rs.arena[i] = byte(i*11 + 5)
		}
		rs.shadow = append([]byte(nil), rs.arena...)
	}
	var clients []func()
	for i := range sc.Tasks {
		t := &taskState{}
		if i < len(sc.Wins) {
			t.winLen = sc.Wins[i].Len
		}
		rs.ts = append(rs.ts, t)
		clients = append(clients, rs.client(i))
	}
	c := &rt.Config{Seed: sc.SchedSeed, Mode: sc.Mode, Mean: sc.Mean, Changes: sc.Changes, Est: est,
		StallPct: sc.StallPct, StallLen: sc.StallLen, PoolFaults: sc.PoolFaults, ClockJumps: sc.ClockJumps,
		FairAfter: 8*est + 100_000, MaxFair: 40*est + 1_000_000, NumCPU: 1 + int(sc.SchedSeed%8),
		Replay: sc.Replay, Decisions: sc.Decisions, Choices: sc.Choices, KeepTrace: keepTrace, Init: resetAll}
	if sc.Mode == 3 && !sc.Replay {
		c.WatchSites = rs.watchSites(sc.WatchKind)
	}
	if !w.race {
		switch sc.Property {
		case "C02", "C06":
			c.Hook = rs.hookCheck
		}
	}
	c.Effects = sc.Property == "C24"
	if sc.Property == "C25" {
		c.NumCPU = 4
		c.ClockJumps = sc.ClockJumps && sc.Surr != nil
	}
	if sc.Surr != nil {
		c.Env = sc.Surr.env()
		c.NumCPU = c.Env.CPUs
	}
	racesBefore := rt.RaceErrorCount()
	res := rt.Run(c, clients)
	if c.Effects {
		rs.effects()
	}
	if sc.Surr != nil {
		for k, n := range rt.LastExit().Fired {
			w.rep.Faults["disk:"+k] += int64(n)
		}
	}
	o := &outcome{res: res, dig: res.Hash}
	st := w.rep.Stats
	for ti, t := range rs.ts {
		o.dig = work.Mix(o.dig, t.dig)
		st["calls"] += t.calls
		st["owner_mutations"] += t.muts
		w.rep.Faults["panicking_call"] += t.panics
		if t.find != nil && o.find == nil {
			o.find = t.find
		}
		for i := range t.held {
			if s := t.held[i].changed(); s != "" {
				rs.note(t, ti, "held", "held:end", fmt.Sprintf("the result caller %d holds from its call %d changed: %s", ti, t.held[i].op, s))
			}
		}
		if t.find != nil && o.find == nil {
			o.find = t.find
		}
	}
	pick := func(oracle, sig, detail string) {
		if o.find == nil && oracles[sc.Property][oracle] {
			o.find = &finding{oracle: oracle, sig: sig, detail: detail}
		}
	}
	if n := rt.RaceErrorCount(); n > racesBefore {
		w.raceN++
		// The report decides, whatever else was seen.
		if oracles[sc.Property]["race"] {
			txt := w.raceText()
			o.find = &finding{oracle: "race", sig: "race:" + raceSig(txt), detail: "conflicting unsynchronised memory accesses:\n" + txt}
		}
	}
	if res.Deadlock {
		var calls []string
		for ti, t := range rs.ts {
			if t.cur != nil {
				calls = append(calls, fmt.Sprintf("caller %d was in %s", ti, t.cur.describe(sc.Specs)))
			}
		}
		pick("hang", "hang:deadlock", "no caller can go on: "+strings.Join(res.Stuck, "; ")+". "+strings.Join(calls, "; "))
	}
	if res.Livelock {
		pick("hang", "hang:livelock", fmt.Sprintf("faults stopped after step %d, and %d steps of fair scheduling later calls were still running: %s", c.FairAfter, c.MaxFair, strings.Join(res.Stuck, "; ")))
	}
	if res.Crash != "" {
		pick("crash", "crash", "a goroutine of the library panicked, which ends the process: "+res.Crash)
	}
	for i := range rs.shared {
		if !rs.sharedSnap[i].same() {
			pick("argument", "argument:shared", fmt.Sprintf("the shared argument %q reads %s after the run; its owner had put %s there", sc.Specs[i].Text, encBig(nil, rs.shared[i]), rs.sharedSnap[i].String()))
		}
	}
	if !res.Deadlock && !res.Livelock {
		if s := specialsNow(); !bytes.Equal(s, w.specials) {
			pick("special", "special", fmt.Sprintf("the exported special values changed from %s to %s", w.specials, s))
		}
	}
	o.steps = res.Steps
	st["steps"] += res.Steps
	st["context_switches"] += res.Switches
	st["overlaps"] += res.Overlaps
	st["blocked_waits"] += res.Blocks
	st["library_goroutines"] += res.Spawned
	st["sim_nanos"] += res.SimNanos
	w.rep.Faults["stalled_caller"] += res.Stalls
	w.rep.Faults["preempted_inside_call"] += res.Overlaps
	w.rep.Faults["pool_eviction"] += res.PoolDrops
	w.rep.Faults["clock_jump"] += res.Jumps
	if sc.Kind == "history" {
		w.rep.Faults["process_restart"]++
	}
	return o
}

// effects turns what happened to the process into a finding.
func (rs *runState) effects() {
	rt.EffectsAtEnd()
	for _, e := range rt.Effects() {
		t, ti := rs.ts[0], 0
		what := "importing the library"
		if e.Task >= 0 && e.Task < len(rs.ts) {
			t, ti = rs.ts[e.Task], e.Task
			what = fmt.Sprintf("caller %d, in %s,", e.Task, t.cur.describe(rs.sc.Specs))
		} else if e.Task >= 0 {
			what = "a goroutine of the library"
		}
		if e.Kind == "variable" || e.Kind == "log" && e.Task < 0 {
			what = "after the calls"
		}
		rs.note(t, ti, "effect", "effect:"+e.Kind, what+" "+e.Text)
		return
	}
}

// watchSites are the yield points where a caller may be stalled on purpose.
func (rs *runState) watchSites(kind int) []int32 {
	var l []int32
	least := int32(1 << 30)
	for _, n := range rs.touch {
		if n > 0 && n < least {
			least = n
		}
	}
	for i, n := range rs.touch {
		if n == 0 {
			continue
		}
		switch kind {
		case 0, 1: // right after a shared load or a call
			if rs.w.meta.Sites[i].Kind != "stmt" {
				l = append(l, int32(i))
			}
		case 2: // the sites visited least
			if n <= least+least/2+1 {
				l = append(l, int32(i))
			}
		default:
			l = append(l, int32(i))
		}
	}
	if len(l) == 0 {
		for i, n := range rs.touch {
			if n > 0 {
				l = append(l, int32(i))
			}
		}
	}
	return l
}

func (w *world) raceText() string {
	b, err := os.ReadFile(fmt.Sprintf("%s.%d", w.racelog, os.Getpid()))
	if err != nil {
		return "(no report: " + err.Error() + ")"
	}
	s := string(b)
	if i := strings.Index(s, "WARNING: DATA RACE"); i >= 0 {
		s = s[i:]
	}
	if i := strings.Index(s, "=================="); i > 0 {
		s = s[:i]
	}
	s = addrRe.ReplaceAllString(s, "ADDR")
	if len(s) > 6000 {
		s = s[:6000]
	}
	return s
}

// raceSig names the functions at the top of the two stacks.
func raceSig(s string) string {
	var fn []string
	l := strings.Split(s, "\n")
	for i, x := range l {
		if (strings.Contains(x, " by goroutine") || strings.Contains(x, " by main goroutine")) && i+1 < len(l) && !strings.Contains(x, "Goroutine") {
			for j := i + 1; j < len(l) && strings.HasPrefix(l[j], "  "); j++ {
				f := strings.TrimSpace(l[j])
				if strings.Contains(f, "mewmew/float") && !strings.Contains(f, "/zzsim/") && strings.HasSuffix(f, ")") {
					fn = append(fn, f)
					break
				}
			}
		}
	}
	sort.Strings(fn)
	return strings.Join(fn, "+")
}
