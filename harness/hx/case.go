package hx

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"sort"
	"strconv"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Case is one generated case: the rapid handle plus accounting.
type Case struct {
	*rapid.T
	sig     []string
	nontriv bool
	classes []string
	quiet   bool
}

// Sig appends to the written-out description of the case.
func (c *Case) Sig(format string, a ...interface{}) { c.sig = append(c.sig, fmt.Sprintf(format, a...)) }

// Nontrivial marks the case as non-trivial (rule stated per check in checks.json).
func (c *Case) Nontrivial() { c.nontriv = true }

// Class counts the case in a histogram class.
func (c *Case) Class(format string, a ...interface{}) {
	c.classes = append(c.classes, fmt.Sprintf(format, a...))
}

type stats struct {
	Evaluations int            `json:"evaluations"`
	Nontrivial  int            `json:"nontrivial"`
	Hashes      []string       `json:"hashes"`
	Classes     map[string]int `json:"classes"`
	Samples     []string       `json:"samples"`
	Tests       map[string]int `json:"tests"`
	Known       []string       `json:"known,omitempty"`
}

var (
	mu     sync.Mutex
	st     = stats{Classes: map[string]int{}, Tests: map[string]int{}}
	hashes = map[uint64]struct{}{}

	current     string
	currentFrom time.Duration
	watchOnce   sync.Once
)

// hangLimit is the CPU time of this process after which one case is declared
// non-terminating. Cases take milliseconds to a few seconds, so the factor is several
// tens; CPU time, unlike wall time, does not depend on what else the machine does.
var hangLimit = time.Duration(envInt("VERIF_HANG_S", 180)) * time.Second

// idleLimit is the wall time a case may spend without using the processor: cases compute only, so
// this one waits for a lock or a channel for ever.
var idleLimit = time.Duration(envInt("VERIF_IDLE_S", 150)) * time.Second

func cpuTime() time.Duration {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func envInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

func watchdog() {
	go func() {
		var idleCPU time.Duration
		var idleFrom time.Time
		for {
			time.Sleep(2 * time.Second)
			mu.Lock()
			if cpu := cpuTime(); current == "" || cpu-idleCPU > 100*time.Millisecond || idleFrom.IsZero() {
				idleCPU, idleFrom = cpu, time.Now()
			} else if time.Since(idleFrom) > idleLimit {
				fmt.Printf("HANG: test %s: a case is blocked, no progress within %v\n", current, idleLimit)
				os.Exit(77)
			}
			if current != "" && cpuTime()-currentFrom > hangLimit {
				fmt.Printf("HANG: test %s: a single case did not terminate within %v of CPU time\n", current, hangLimit)
				os.Exit(77)
			}
			mu.Unlock()
		}
	}()
}

// Check runs prop over generated cases; weight scales the per-shard case budget
// VERIF_CHECKS.
func Check(t *testing.T, weight float64, prop func(c *Case)) {
	t.Helper()
	CheckN(t, int(float64(envInt("VERIF_CHECKS", 100))*weight), prop)
}

// CheckN runs prop over n generated cases.
func CheckN(t *testing.T, n int, prop func(c *Case)) {
	t.Helper()
	if n < 1 {
		n = 1
	}
	flag.Set("rapid.checks", strconv.Itoa(n))
	watchOnce.Do(watchdog)
	rapid.Check(t, func(rt *rapid.T) {
		c := &Case{T: rt}
		mu.Lock()
		current, currentFrom = t.Name(), cpuTime()
		mu.Unlock()
		SetRand(rapid.Uint64().Draw(rt, "rand"))
		prop(c)
		mu.Lock()
		current = ""
		st.Evaluations++
		st.Tests[t.Name()]++
		for _, k := range c.classes {
			st.Classes[k]++
		}
		if c.nontriv {
			st.Nontrivial++
			h := uint64(14695981039346656037)
			for _, s := range c.sig {
				for i := 0; i < len(s); i++ {
					h = (h ^ uint64(s[i])) * 1099511628211
				}
				h = (h ^ '|') * 1099511628211
			}
			if _, ok := hashes[h]; !ok {
				hashes[h] = struct{}{}
				if len(st.Samples) < 3 || (len(hashes)%97 == 0 && len(st.Samples) < 6) {
					st.Samples = append(st.Samples, t.Name()+": "+fmt.Sprint(c.sig))
				}
			}
		}
		mu.Unlock()
	})
}

// Rare is true about once in n draws (interior values are not favoured by the generator).
func Rare(c *Case, n int, label string) bool {
	return rapid.IntRange(0, n-1).Draw(c.T, label) == n*5/8
}

// Steps draws the length of a history: lo..hi, rarely up to long (never at large ring degrees).
func Steps(c *Case, lo, hi, long int, rare int) int {
	if Large == 0 && Rare(c, rare, "long history") {
		c.Class("long history")
		return rapid.IntRange(long/2, long).Draw(c.T, "steps")
	}
	return rapid.IntRange(lo, hi).Draw(c.T, "steps")
}

// Main is to be called from TestMain; it writes the statistics file.
func Main(m *testing.M) {
	flag.Parse()
	code := m.Run()
	if p := os.Getenv("VERIF_STATS"); p != "" {
		for h := range hashes {
			st.Hashes = append(st.Hashes, strconv.FormatUint(h, 16))
		}
		sort.Strings(st.Hashes)
		b, _ := json.Marshal(&st)
		if err := os.WriteFile(p, b, 0o644); err != nil {
			fmt.Println("cannot write stats:", err)
			os.Exit(3)
		}
	}
	os.Exit(code)
}

// Panics runs f and reports whether it panicked, and with what.
func Panics(f func()) (val interface{}, did bool) {
	did = true
	defer func() {
		if did {
			val = recover()
		}
	}()
	f()
	did = false
	return nil, false
}
