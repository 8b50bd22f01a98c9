// C21: file identifiers name package and path one to one, for ever, from any
// goroutine.
package PKG

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/mewmew/typast/internal/option"
)

var iSpecs = []string{"", "@preview/a:1.0.0", "@preview/a:1.0.1", "@local/a:1.0.0", "@preview/b:1.0.0", "@preview/a:2.0.0", "@preview/a:1.1.0"}
var iPaths = []string{"/x.typ", "/y.typ", "/d/x.typ", "d/../x.typ", "/x"}
var iNorm = []string{"/x.typ", "/y.typ", "/d/x.typ", "/x.typ", "/x"}

func iSpec(s string) option.Option[*PackageSpec] {
	if s == "" {
		return option.None[*PackageSpec]()
	}
	spec, err := ParsePackageSpec(s)
	if err != nil {
		panic(err)
	}
	return option.Some(spec)
}

type iEntry struct {
	spec, path string
	fake       bool
}

// iModel is the reference: which identifier stands for what.
type iModel struct {
	of  map[iEntry]FileID
	is  map[FileID]iEntry
	ids []FileID
}

func iNew() *iModel { return &iModel{of: map[iEntry]FileID{}, is: map[FileID]iEntry{}} }

// learn checks the result of an operation that names e.
func (m *iModel) learn(id FileID, e iEntry) error {
	if id == 0 {
		return fmt.Errorf("identifier 0 for %v", e)
	}
	if old, ok := m.is[id]; ok && old != e || ok && e.fake {
		return fmt.Errorf("identifier %d stands for %v and for %v", id, old, e)
	}
	if !e.fake {
		if old, ok := m.of[e]; ok && old != id {
			return fmt.Errorf("%v has the identifiers %d and %d", e, old, id)
		}
		m.of[e] = id
	}
	m.is[id] = e
	m.ids = append(m.ids, id)
	return nil
}

func iLook(id FileID) iEntry {
	p := id.VPath()
	e := iEntry{path: p.Path}
	p.Path = "/spoilt"
	if s, ok := id.Spec().Get(); ok {
		e.spec = s.String()
		s.Name = "spoilt"
	}
	return e
}

// all checks every identifier ever handed out.
func (m *iModel) all() error {
	for id, e := range m.is {
		got := iLook(id)
		if got.spec != e.spec || got.path != e.path {
			return fmt.Errorf("identifier %d was made for %q %q and now stands for %q %q", id, e.spec, e.path, got.spec, got.path)
		}
		if s := id.String(); s != e.spec+e.path {
			return fmt.Errorf("identifier of %v prints as %q", e, s)
		}
		if FileIDFromUint16(id.Uint16()) != id {
			return fmt.Errorf("identifier %d does not survive Uint16", id)
		}
	}
	return nil
}

// iOp performs an operation "n<spec><path>" (new), "f<path>" (fake),
// "j<entry><path>" (join), "e<entry>" (other extension) or "l<entry>" (look).
func iOp(op string, ids []FileID, spec option.Option[*PackageSpec]) (FileID, iEntry) {
	d := func(i int) int { return int(op[i] - '0') }
	switch op[0] {
	case 'n':
		p := NewVirtualPath(iPaths[d(2)])
		id := NewFileID(spec, p)
		iSpoil(spec, p)
		return id, iEntry{spec: iSpecs[d(1)], path: iNorm[d(2)]}
	case 'f':
		p := NewVirtualPath(iPaths[d(1)])
		id := NewFakeFileID(p)
		iSpoil(option.None[*PackageSpec](), p)
		return id, iEntry{path: iNorm[d(1)], fake: true}
	case 'j':
		b := ids[d(1)%len(ids)]
		e := iLook(b)
		p := []string{"/x.typ", "y.typ", "d/x.typ"}[d(2)]
		want := p
		if p[0] != '/' {
			want = e.path[:strings.LastIndexByte(e.path, '/')+1] + p
		}
		return b.Join(p), iEntry{spec: e.spec, path: want}
	case 'e':
		b := ids[d(1)%len(ids)]
		e := iLook(b)
		p := e.path
		if i := strings.LastIndexByte(p, '.'); i > strings.LastIndexByte(p, '/') {
			p = p[:i]
		}
		return b.WithExtension(".typ"), iEntry{spec: e.spec, path: p + ".typ"}
	}
	panic("op " + op)
}

// iSpoil overwrites what was passed to the code: identifiers are for ever.
func iSpoil(spec option.Option[*PackageSpec], p *VirtualPath) {
	p.Path = "/spoilt"
	if s, ok := spec.Get(); ok {
		s.Namespace, s.Version.Major = "spoilt", 99
	}
}

func iPre(op string) option.Option[*PackageSpec] {
	if op[0] == 'n' {
		return iSpec(iSpecs[op[1]-'0'])
	}
	return option.None[*PackageSpec]()
}

func c21History(r *vfRun, ops []string) error {
	m := iNew()
	for _, op := range ops {
		if (op[0] == 'j' || op[0] == 'e') && len(m.ids) == 0 {
			return nil
		}
		id, e := iOp(op, m.ids, iPre(op))
		r.Transitions++
		if err := m.learn(id, e); err != nil {
			return err
		}
		if err := m.all(); err != nil {
			return err
		}
	}
	r.Validated++
	return nil
}

// c21Schedule runs threads of operations; the first identifiers are made
// before.
func c21Schedule(r *vfRun, scenario, sched string) error {
	parts := strings.Split(scenario, "|")
	m := iNew()
	for _, op := range strings.Fields(parts[0]) {
		id, e := iOp(op, m.ids, iPre(op))
		if err := m.learn(id, e); err != nil {
			return err
		}
	}
	base := append([]FileID(nil), m.ids...)
	type res struct {
		id FileID
		e  iEntry
	}
	results := make([][]res, len(parts)-1)
	var bodies []func()
	for t, p := range parts[1:] {
		ops := strings.Fields(p)
		var specs []option.Option[*PackageSpec]
		for _, op := range ops {
			specs = append(specs, iPre(op))
		}
		bodies = append(bodies, func() {
			ids := append([]FileID(nil), base...)
			for i, op := range ops {
				if op[0] == 'l' {
					n := int(op[1] - '0')
					id := ids[(n+len(ids))%len(ids)]
					results[t] = append(results[t], res{0, iLook(id)})
					continue
				}
				id, e := iOp(op, ids, specs[i])
				ids = append(ids, id)
				results[t] = append(results[t], res{id, e})
			}
		})
	}
	if err := sRun(sched, bodies); err != nil {
		return fmt.Errorf("threads %q: %v", scenario, err)
	}
	for t, rs := range results {
		for i, x := range rs {
			if x.id == 0 {
				continue // looks are checked through the others
			}
			if err := m.learn(x.id, x.e); err != nil {
				return fmt.Errorf("threads %q: thread %d operation %d: %v\nschedule %s", scenario, t, i, err, sShow(sTrace))
			}
		}
	}
	if err := m.all(); err != nil {
		return fmt.Errorf("threads %q: %v\nschedule %s", scenario, err, sShow(sTrace))
	}
	// Interning again finds what is there.
	for e, id := range m.of {
		if again := NewFileID(iSpec(e.spec), NewVirtualPath(e.path)); again != id {
			return fmt.Errorf("threads %q: %v is %d and then %d\nschedule %s", scenario, e, id, again, sShow(sTrace))
		}
	}
	out := ""
	for _, rs := range results {
		for _, x := range rs {
			out += vfB("%d ", x.id)
		}
	}
	r.Outcome(scenario + out)
	r.Validated++
	return nil
}

// c21Full uses every identifier there is.
func c21Full(r *vfRun, mode string) error {
	m := iNew()
	const limit = 1<<16 - 1
	for i := 0; i < limit; i++ {
		var id FileID
		e := iEntry{path: "/f" + strconv.Itoa(i)}
		fake := mode == "fake" || mode == "mixed" && i%3 == 0
		if fake {
			e.fake = true
			id = NewFakeFileID(NewVirtualPath(e.path))
		} else {
			id = NewFileID(iSpec(""), NewVirtualPath(e.path))
		}
		if err := m.learn(id, e); err != nil {
			return err
		}
		r.Transitions++
	}
	try := func(f func() FileID) (id FileID, panics bool) {
		defer func() { panics = recover() != nil }()
		return f(), false
	}
	for k := 0; k < 3; k++ {
		if id, p := try(func() FileID { return NewFileID(iSpec(""), NewVirtualPath("/more")) }); !p {
			return fmt.Errorf("all identifiers are used, and a new file gets %d", id)
		}
		if id, p := try(func() FileID { return NewFakeFileID(NewVirtualPath("/f1")) }); !p {
			return fmt.Errorf("all identifiers are used, and a new unnamed file gets %d", id)
		}
	}
	for e, id := range m.of {
		if again, p := try(func() FileID { return NewFileID(iSpec(""), NewVirtualPath(e.path)) }); p || again != id {
			return fmt.Errorf("when all identifiers are used, %v is %d and then %d (panic: %v)", e, id, again, p)
		}
	}
	if err := m.all(); err != nil {
		return err
	}
	r.Validated++
	return nil
}

func c21Check(r *vfRun, c string) error {
	vfReset()
	a, b, isSched := strings.Cut(c, "\x00")
	if isSched {
		return c21Schedule(r, a, b)
	}
	if mode, ok := strings.CutPrefix(c, "full "); ok {
		return c21Full(r, mode)
	}
	return c21History(r, strings.Fields(c))
}

func vfProperty() vfProp {
	return vfProp{Check: c21Check, Gen: func(r *vfRun) {
		for _, m := range []string{"new", "fake", "mixed"} {
			r.Emit("full " + m)
		}
		r.Bound("exhaustion", "all 65535 identifiers used, then every operation tried again")
		var all []string
		for s := range iSpecs {
			for p := range iPaths {
				all = append(all, vfB("n%d%d", s, p))
			}
		}
		for p := range iPaths {
			all = append(all, vfB("f%d", p))
		}
		for b := 0; b < 3; b++ {
			for p := 0; p < 3; p++ {
				all = append(all, vfB("j%d%d", b, p))
			}
			all = append(all, vfB("e%d", b))
		}
		vfWords(all, 1, 3, " ", r.Emit)
		few := []string{"n00", "n10", "n20", "n03", "n01", "n04", "n14", "f0", "f1", "j00", "j12", "j21", "e0", "e1", "e2"}
		n := 5
		if r.Thorough {
			n = 6
		}
		vfWords(few, 4, n, " ", r.Emit)
		r.Bound("histories", vfB("all histories of up to 3 of %d operations and up to %d of %d", len(all), n, len(few)))

		bound := 2
		if r.Thorough {
			bound = 3
		}
		ops := []string{"n00", "n01", "n10", "f0", "j00", "e0", "l0"}
		third := ops[:1]
		if r.Thorough {
			third = ops
		}
		for _, pre := range []string{"n02", "n00 n10"} {
			for i, a := range ops {
				for _, b := range ops[i:] {
					sExplore(r, pre+"|"+a+"|"+b, bound+1)
					sExplore(r, pre+"|"+a+" "+b+"|"+b+" "+a, bound)
					for _, c := range third {
						sExplore(r, pre+"|"+a+"|"+b+"|"+c, bound)
						sExplore(r, pre+"|"+a+" "+c+"|"+b+" l0 "+c, bound)
					}
				}
			}
		}
		sExplore(r, "n02|n00 n00|n00 n01|n01 n00", bound)
		r.Bound("schedules", vfB("every schedule of 2 or 3 goroutines over pairs of %d operations with at most %d preemptions (%d for one operation each), preempted before any statement; a third goroutine and longer bodies with %d of them", len(ops), bound, bound+1, len(third)))
	}}
}
