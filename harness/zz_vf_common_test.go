// Shared driver of the bounded-exhaustive explorers. One property file is
// compiled next to it (through go's -overlay); that file defines vfProperty.
package PKG

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"testing"
	"time"
)

// vfProp is what a property file provides. Gen enumerates, simplest first and
// deterministically, every case of the bounded space; Check executes one case
// on the real code and compares it with the oracle.
type vfProp struct {
	// Gen emits case strings. It is called in each shard with the same
	// arguments; emit drops the cases of other shards.
	Gen func(r *vfRun)
	// Check decides one case. A non-nil error is a violation.
	Check func(r *vfRun, c string) error
}

type vfViolation struct {
	Case string `json:"case"`
	Err  string `json:"err"`
	Sig  string `json:"sig"`
}

type vfRun struct {
	Tier     string
	Thorough bool
	Shard    int
	NShards  int
	deadline time.Time
	seq      uint64

	Cases       uint64
	Transitions uint64 // steps of the system under test (operations, node visits, ...)
	Validated   uint64 // oracle comparisons between model and implementation
	Counters    map[string]uint64
	Samples     []string
	Violations  []vfViolation
	Exhaustive  bool
	Bounds      map[string]string
	outcomes    map[uint64]struct{}

	prog     []byte
	caseNo   atomic.Uint64
	caseTime atomic.Int64
	prop     *vfProp
	known    map[string]bool
	KnownHit map[string]uint64
	dumb     bool
}

type vfStop struct{}

// Count adds to a named counter reported in the evidence.
func (r *vfRun) Count(name string, n uint64) { r.Counters[name] += n }

// Bound records the bound of a completed family of cases.
func (r *vfRun) Bound(name, text string) { r.Bounds[name] = text }

// Outcome records a distinct observed outcome (by hash).
func (r *vfRun) Outcome(s string) {
	if len(r.outcomes) >= 200000 {
		return
	}
	h := fnv.New64a()
	h.Write([]byte(s))
	r.outcomes[h.Sum64()] = struct{}{}
}

// Emit runs one case if it belongs to this shard.
func (r *vfRun) Emit(c string) {
	n := r.seq
	r.seq++
	if int(n%uint64(r.NShards)) != r.Shard {
		return
	}
	r.run(c)
}

// Mine reports whether the next unit of work belongs to this shard; used by
// generators that shard by root instead of by case.
func (r *vfRun) Mine() bool {
	n := r.seq
	r.seq++
	return int(n%uint64(r.NShards)) == r.Shard
}

// Exec runs a case unconditionally (after Mine).
func (r *vfRun) Exec(c string) { r.run(c) }

func (r *vfRun) run(c string) {
	if r.Cases&63 == 0 && time.Now().After(r.deadline) {
		r.Exhaustive = false
		panic(vfStop{})
	}
	r.Cases++
	if r.prog != nil {
		k := copy(r.prog[8:], c)
		for i := 0; i < 8; i++ {
			r.prog[i] = byte(k >> (8 * i))
		}
	}
	r.caseTime.Store(time.Now().UnixNano())
	r.caseNo.Add(1)
	err := r.Safe(c)
	if len(r.Samples) < 3 || (len(r.Samples) < 6 && r.Cases%9973 == 0) {
		r.Samples = append(r.Samples, c)
	}
	if err == nil {
		return
	}
	sig := vfSig(err.Error())
	if r.known[c] {
		r.KnownHit[c]++
		return
	}
	// Confirm: a violation counts only when it repeats.
	for i := 0; i < 4; i++ {
		if e := r.Safe(c); e == nil {
			r.Count("unrepeatable", 1)
			fmt.Fprintf(os.Stderr, "unrepeatable: %q: %v\n", c, err)
			return
		}
	}
	r.Violations = append(r.Violations, vfViolation{Case: c, Err: err.Error(), Sig: sig})
	max := 1
	if r.dumb {
		max = 400
	}
	if len(r.Violations) >= max {
		r.Exhaustive = false
		panic(vfStop{})
	}
}

// vfSig reduces an error to its first line.
func vfSig(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

// Safe runs Check and turns a panic into an error.
func (r *vfRun) Safe(c string) (err error) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(vfStop); ok {
				panic(e)
			}
			err = fmt.Errorf("panic: %v\n%s", e, vfTrim(debug.Stack()))
		}
	}()
	return r.prop.Check(r, c)
}

func vfTrim(b []byte) string {
	s := string(b)
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

func (r *vfRun) watchdog(limit time.Duration, maxHeap uint64, out string) {
	last := uint64(0)
	for {
		time.Sleep(500 * time.Millisecond)
		n := r.caseNo.Load()
		var why string
		t := r.caseTime.Load()
		if n != 0 && n == last && t != 0 && time.Since(time.Unix(0, t)) > limit {
			why = fmt.Sprintf("no progress: one case ran for more than %v", limit)
		}
		last = n
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > maxHeap {
			why = fmt.Sprintf("memory: live heap exceeds %d MB in one case", maxHeap>>20)
		}
		if why != "" {
			os.WriteFile(out+".hang", []byte(why), 0o644)
			os.Exit(77)
		}
	}
}

func vfEnvInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

func TestVF(t *testing.T) {
	out := os.Getenv("VF_OUT")
	if out == "" {
		t.Skip("driver only")
	}
	p := vfProperty()
	r := &vfRun{
		Tier:       os.Getenv("VF_TIER"),
		Shard:      vfEnvInt("VF_SHARD", 0),
		NShards:    vfEnvInt("VF_NSHARDS", 1),
		Counters:   map[string]uint64{},
		Bounds:     map[string]string{},
		KnownHit:   map[string]uint64{},
		known:      map[string]bool{},
		outcomes:   map[uint64]struct{}{},
		Exhaustive: true,
		prop:       &p,
		dumb:       os.Getenv("VF_ALL") != "",
	}
	r.Thorough = r.Tier == "thorough"
	r.deadline = time.Now().Add(time.Duration(vfEnvInt("VF_BUDGET", 240)) * time.Second)
	if k := os.Getenv("VF_KNOWN"); k != "" {
		f, err := os.Open(k)
		if err != nil {
			t.Fatal(err)
		}
		sc := bufio.NewScanner(f)
		sc.Buffer(nil, 1<<24)
		for sc.Scan() {
			var s string
			if json.Unmarshal(sc.Bytes(), &s) == nil {
				r.known[s] = true
			}
		}
		f.Close()
	}
	if rp := os.Getenv("VF_REPLAY"); rp != "" {
		b, err := os.ReadFile(rp)
		if err != nil {
			t.Fatal(err)
		}
		var v vfViolation
		if err := json.Unmarshal(b, &v); err != nil {
			t.Fatal(err)
		}
		r.caseTime.Store(time.Now().UnixNano())
		r.caseNo.Store(1)
		go r.watchdog(time.Duration(vfEnvInt("VF_HANG", 60))*time.Second, 6<<30, out)
		if err := r.Safe(v.Case); err != nil {
			os.WriteFile(out, []byte(err.Error()), 0o644)
			fmt.Printf("REPLAY FAILS: %v\n", err)
			os.Exit(3)
		}
		fmt.Println("REPLAY PASSES")
		return
	}
	debug.SetGCPercent(400)
	pf, err := os.OpenFile(out+".cur", os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o644)
	if err != nil {
		t.Fatal(err)
	}
	const progSize = 1 << 20
	if err := pf.Truncate(progSize); err != nil {
		t.Fatal(err)
	}
	r.prog, err = syscall.Mmap(int(pf.Fd()), 0, progSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		t.Fatal(err)
	}
	go r.watchdog(time.Duration(vfEnvInt("VF_HANG", 60))*time.Second, 3<<30, out)
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(vfStop); !ok {
					panic(e)
				}
			}
		}()
		p.Gen(r)
	}()
	r.caseTime.Store(0)
	hs := make([]uint64, 0, len(r.outcomes))
	for h := range r.outcomes {
		hs = append(hs, h)
	}
	res := map[string]any{
		"cases": r.Cases, "transitions": r.Transitions, "validated": r.Validated,
		"counters": r.Counters, "samples": r.Samples, "violations": r.Violations,
		"exhaustive": r.Exhaustive, "bounds": r.Bounds, "known": r.KnownHit, "outcomes": hs,
	}
	b, err := json.Marshal(res)
	if err != nil {
		t.Fatal(err)
	}
	if err := os.WriteFile(out, b, 0o644); err != nil {
		t.Fatal(err)
	}
}
