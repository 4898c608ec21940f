package main

import (
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"time"

	"github.com/bytedance/mockey/verifh/zrt"
)

var (
	fProfile = flag.String("profile", "", "what to run")
	fSeed    = flag.Int64("seed", 1, "")
	fFrom    = flag.Int("from", 0, "first case")
	fN       = flag.Int("n", 100, "number of cases")
	fOut     = flag.String("out", "/dev/null", "report")
	fJournal = flag.String("journal", "", "journal of the current case")
	fEvents  = flag.String("events", "", "log of the observable events")
	fSkip    = flag.String("skip", "", "targets to leave out, separated by ;")
	fTicks   = flag.Bool("ticks", false, "another goroutine prints lines all the time")
	fBudget  = flag.Float64("budget", 0, "seconds after which no more case is started")
	fScale   = flag.Int("scale", 1, "size of the dedicated workloads")
)

func main() {
	flag.Parse()
	zrt.PoolSeed = *fSeed
	zrt.ForceGC = runtime.GC
	zrt.InitPools()
	excludeTargets()
	rep := newReport(*fOut, *fJournal)
	if *fEvents != "" {
		rep.OpenEvents(*fEvents)
	}
	if *fTicks {
		go func() {
			for {
				fmt.Println("tick")
				time.Sleep(50 * time.Microsecond)
			}
		}()
	}
	defer func() {
		if r := recover(); r != nil {
			rep.Violation("crash", fmt.Sprintf("%v\n%s", r, debug.Stack()), nil)
			os.Exit(0)
		}
	}()
	if f, ok := profiles[*fProfile]; ok {
		histories(f, rep)
	} else if w, ok := workloads[*fProfile]; ok {
		w(rep)
	} else {
		names := []string{}
		for k := range profiles {
			names = append(names, k)
		}
		sort.Strings(names)
		fmt.Fprintln(os.Stderr, "profiles:", names)
		os.Exit(3)
	}
	if zrt.LowStacks.Load() > 0 {
		rep.Violation("stack", zrt.LowName()+" ran without the stack it needs", nil)
	}
	rep.Write(true)
}

var started = time.Now()

// more tells whether case i is to be run: on a busy machine the last ones are left out
func more(rep *Report, i int) bool {
	if i >= *fFrom+*fN {
		return false
	}
	if *fBudget > 0 && *fEvents == "" && i >= *fFrom+2 && time.Since(started).Seconds() > *fBudget {
		rep.Count("cases left out for lack of time", *fFrom+*fN-i)
		return false
	}
	return true
}

var workloads = map[string]func(rep *Report){}

func histories(f Features, rep *Report) {
	start := time.Now()
	var tm *textMonitor
	if f.TextEvery > 0 {
		tm = newTextMonitor()
	}
	for i := *fFrom; more(rep, i); i++ {
		rep.Case("%s seed=%d case=%d", *fProfile, *fSeed, i)
		e := newEng(f, rand.New(rand.NewSource(*fSeed*1000003+int64(i))).Int63(), rep)
		e.text = tm
		rep.Event("history %d", i)
		rep.Mark()
		e.history(fmt.Sprint("h", i))
		rep.Mark()
		rep.Count("operations", len(e.trace))
		if e.failed {
			break // the process may be in any state now
		}
		if i == *fFrom || i == *fFrom+7 {
			for j, l := range e.trace {
				if j < 25 {
					rep.Sample(l)
				}
			}
		}
	}
	if tm != nil {
		rep.Count("bytes of machine code compared", int(tm.scan))
	}
	rep.Count("wall_ms", int(time.Since(start).Milliseconds()))
}
