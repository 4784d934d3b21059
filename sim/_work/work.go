// Package work is what the simulation binaries and the driver agree on.
package work

import (
	"encoding/binary"
	"encoding/json"
	"os"
	"sort"
)

// Site is one yield point.
type Site struct {
	Pos  string `json:"pos"`
	Kind string `json:"kind"`
	Func string `json:"func"`
}

// Gen is one golden-test generator.
type Gen struct {
	Dir   string   `json:"dir"`
	Files []string `json:"files"`
	Args  []string `json:"args"`
	Alias string   `json:"alias"`
}

// Meta describes the build.
type Meta struct {
	Module   string         `json:"module"`
	Level    int            `json:"level"`
	Sites    []Site         `json:"sites"`
	Literals []uint64       `json:"literals"`
	Words    []string       `json:"words"`
	Features map[string]int `json:"features"`
	Gens     []Gen          `json:"gens"`
}

// LoadMeta reads the build description.
func LoadMeta(p string) (*Meta, error) {
	b, err := os.ReadFile(p)
	if err != nil {
		return nil, err
	}
	m := &Meta{}
	return m, json.Unmarshal(b, m)
}

// Violation is one broken property.
type Violation struct {
	Property string   `json:"property"`
	Oracle   string   `json:"oracle"`
	Sig      string   `json:"signature"`
	Detail   string   `json:"detail"`
	Trace    []string `json:"trace,omitempty"`
}

// Report is what one worker found.
type Report struct {
	Shard   int              `json:"shard"`
	Runs    int64            `json:"runs"`
	Stats   map[string]int64 `json:"stats"`
	Faults  map[string]int64 `json:"faults"`
	Modes   map[string]int64 `json:"modes"`
	Ops     map[string]int64 `json:"ops"`
	Sites   []int32          `json:"sites"`
	Samples []any            `json:"samples"`
	Digests []uint64         `json:"digests"` // of the first runs of the shard
	Viol    *Violation       `json:"violation,omitempty"`
	Cand    string           `json:"candidate,omitempty"`
	Known   map[string]int64 `json:"known,omitempty"`
	Wall    float64          `json:"wall_s"`
	Error   string           `json:"error,omitempty"`
	Stopped bool             `json:"stopped"` // the time ran out before the runs did
	Hashes  int              `json:"hashes"`
}

// NewReport makes an empty report.
func NewReport(shard int) *Report {
	return &Report{Shard: shard, Stats: map[string]int64{}, Faults: map[string]int64{}, Modes: map[string]int64{}, Ops: map[string]int64{}, Known: map[string]int64{}}
}

// Save writes v as JSON.
func Save(p string, v any) error {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(p, b, 0644)
}

// SaveHashes writes a set of 64-bit measures.
func SaveHashes(p string, m map[uint64]struct{}) error {
	l := make([]uint64, 0, len(m))
	for h := range m {
		l = append(l, h)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	b := make([]byte, 8*len(l))
	for i, h := range l {
		binary.LittleEndian.PutUint64(b[8*i:], h)
	}
	return os.WriteFile(p, b, 0644)
}

// Mix derives one seed from several numbers.
func Mix(a ...uint64) uint64 {
	h := uint64(0x9E3779B97F4A7C15)
	for _, x := range a {
		h ^= x
		h = (h ^ (h >> 30)) * 0xBF58476D1CE4E5B9
		h = (h ^ (h >> 27)) * 0x94D049BB133111EB
		h ^= h >> 31
		h += 0x9E3779B97F4A7C15
	}
	return h
}

// MixS adds a string.
func MixS(a uint64, s string) uint64 {
	h := a
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return Mix(h)
}
