// Exploration of all schedules with a bounded number of preemptions.
package PKG

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/mewmew/typast/internal/vfsched"
)

// sTrace is the trace of the last run.
var sTrace []vfsched.Point

// sRun runs bodies under the schedule "d:t,d:t".
func sRun(sched string, bodies []func()) error {
	dev := map[int]int{}
	if sched != "" {
		for _, p := range strings.Split(sched, ",") {
			d, t, _ := strings.Cut(p, ":")
			a, _ := strconv.Atoi(d)
			b, _ := strconv.Atoi(t)
			dev[a] = b
		}
	}
	res := vfsched.Run(bodies, dev)
	sTrace = res.Trace
	if res.Err != nil {
		return fmt.Errorf("%v\nschedule %s", res.Err, sShow(res.Trace))
	}
	return nil
}

func sShow(tr []vfsched.Point) string {
	var sb strings.Builder
	for i := 0; i < len(tr); {
		j := i
		for j < len(tr) && tr[j].Pick == tr[i].Pick {
			j++
		}
		fmt.Fprintf(&sb, " %d*%d", tr[i].Pick, j-i)
		i = j
	}
	return sb.String()
}

// sExplore runs every schedule of a scenario with at most bound preemptions
// (switches away from a thread that could go on; other switches are free).
// Every case is "scenario\x00schedule".
func sExplore(r *vfRun, scenario string, bound int) { sExploreN(r, scenario, bound, true) }

// sExploreHere explores a scenario in this shard alone.
func sExploreHere(r *vfRun, scenario string, bound int) { sExploreN(r, scenario, bound, false) }

func sExploreN(r *vfRun, scenario string, bound int, share bool) {
	var dfs func(dev map[int]int, from, used int, top bool)
	enc := func(dev map[int]int) string {
		var ks []int
		for k := range dev {
			ks = append(ks, k)
		}
		sort.Ints(ks)
		var s []string
		for _, k := range ks {
			s = append(s, fmt.Sprintf("%d:%d", k, dev[k]))
		}
		return strings.Join(s, ",")
	}
	dfs = func(dev map[int]int, from, used int, top bool) {
		r.Exec(scenario + "\x00" + enc(dev))
		r.Transitions += uint64(len(sTrace))
		tr := append([]vfsched.Point(nil), sTrace...)
		for d := from; d < len(tr); d++ {
			p := tr[d]
			cost := 0
			for _, e := range p.Enabled {
				if e == p.Cur {
					cost = 1
				}
			}
			if used+cost > bound {
				continue
			}
			for _, e := range p.Enabled {
				if e == p.Pick {
					continue
				}
				if top && !r.Mine() {
					continue
				}
				next := map[int]int{d: e}
				for k, v := range dev {
					next[k] = v
				}
				dfs(next, d+1, used+cost, false)
			}
		}
	}
	dfs(map[int]int{}, 0, 0, share)
	r.Count("scenarios", 1)
}
