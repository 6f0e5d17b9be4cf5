// Package h runs the cases of one property against the real code: panics and
// hangs are failures, inputs are counted, the first failure not listed as known
// is written out.
package h

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

// Failure is one input on which the code breaks the property.
type Failure struct {
	Input  string `json:"input"`
	Detail string `json:"detail"`
	Case   int64  `json:"case"`
}

// Result is what a run covered.
type Result struct {
	Property    string    `json:"property"`
	Seed        int64     `json:"seed"`
	Evaluations int64     `json:"evaluations"`
	Distinct    int       `json:"distinct"`
	Nontrivial  int       `json:"nontrivial"`
	Rule        string    `json:"rule"`
	Samples     []string  `json:"samples"`
	Failures    []Failure `json:"failures"`
	Known       []string  `json:"known"`
	Seconds     float64   `json:"seconds"`
	Complete    bool      `json:"complete"`
}

// R is a run.
type R struct {
	*rand.Rand
	res   Result
	seen  map[uint64]bool
	start time.Time
	until time.Time
	out   string
	cur   atomic.Value // string: the running input
	began int64        // unix nano of the running case, 0 if none
	scale int
	max   int

	shared []byte
}

var known = map[string]bool{}

// Main runs f for a property.
func Main(prop, rule string, f func(r *R)) {
	seed := flag.Int64("seed", 1, "seed")
	budget := flag.Float64("budget", 60, "seconds")
	scale := flag.Int("scale", 1, "multiplies the number of cases")
	out := flag.String("out", "", "result file")
	kn := flag.String("known", "", "file of known failing inputs, one JSON string a line")
	max := flag.Int("max", 1, "stop after so many failures")
	flag.Parse()
	if *kn != "" {
		b, _ := os.ReadFile(*kn)
		for _, l := range strings.Split(string(b), "\n") {
			var s string
			if json.Unmarshal([]byte(l), &s) == nil {
				known[s] = true
			}
		}
	}
	debug.SetMaxStack(256 << 20)
	r := &R{Rand: rand.New(rand.NewSource(*seed)), seen: map[uint64]bool{}, start: time.Now(), out: *out, scale: *scale, max: *max}
	r.until = r.start.Add(time.Duration(*budget * float64(time.Second)))
	r.res = Result{Property: prop, Seed: *seed, Rule: rule}
	r.cur.Store("")
	if *out != "" {
		if f, err := os.Create(*out + ".cur"); err == nil {
			f.Truncate(32768)
			r.shared, _ = syscall.Mmap(int(f.Fd()), 0, 32768, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
		}
	}
	go r.watch()
	func() {
		defer func() {
			if p := recover(); p != nil {
				if p == errStop {
					return
				}
				panic(p)
			}
		}()
		f(r)
		r.res.Complete = true
	}()
	r.finish()
}

var errStop = fmt.Errorf("stop")

func (r *R) finish() {
	r.res.Seconds = time.Since(r.start).Seconds()
	r.res.Distinct = len(r.seen)
	b, _ := json.MarshalIndent(r.res, "", " ")
	if r.out != "" {
		os.WriteFile(r.out, b, 0o644)
	} else {
		fmt.Println(string(b))
	}
	os.Exit(0)
}

// watch reports a case that does not end, or eats the memory.
func (r *R) watch() {
	for range time.Tick(200 * time.Millisecond) {
		b := atomic.LoadInt64(&r.began)
		if b == 0 {
			continue
		}
		d := time.Since(time.Unix(0, b))
		if d < time.Second {
			continue
		}
		var ms runtime.MemStats
		if d > 2*time.Second {
			runtime.ReadMemStats(&ms)
		}
		if d > 20*time.Second || ms.HeapAlloc > 3<<30 {
			r.res.Failures = append(r.res.Failures, Failure{Input: r.cur.Load().(string), Detail: fmt.Sprintf("does not end (%.0f s, %d MB)", d.Seconds(), ms.HeapAlloc>>20), Case: r.res.Evaluations})
			r.finish()
		}
	}
}

// N is a number of cases at the scale of this run.
func (r *R) N(n int) int { return n * r.scale }

// More reports that the time is not used up.
func (r *R) More() bool { return time.Now().Before(r.until) }

// Do runs a case: f returns "" or what is wrong.
func (r *R) Do(input string, nontrivial bool, f func() string) bool {
	r.res.Evaluations++
	if r.res.Evaluations&255 == 0 && !r.More() {
		panic(errStop)
	}
	hh := fnv.New64a()
	hh.Write([]byte(input))
	if k := hh.Sum64(); !r.seen[k] {
		if len(r.seen) < 4000000 {
			r.seen[k] = true
			if nontrivial {
				r.res.Nontrivial++
			}
		}
		if n := len(r.res.Samples); n < 8 && nontrivial && r.Intn(1+n*50) == 0 {
			r.res.Samples = append(r.res.Samples, input)
		}
	}
	r.cur.Store(input)
	if r.shared != nil {
		// survives a crash of the process
		n := copy(r.shared[2:], input)
		r.shared[0], r.shared[1] = byte(n), byte(n>>8)
	}
	atomic.StoreInt64(&r.began, time.Now().UnixNano())
	d := r.call(f)
	atomic.StoreInt64(&r.began, 0)
	if d == "" {
		return true
	}
	if known[input] {
		r.res.Known = append(r.res.Known, input)
		return false
	}
	r.res.Failures = append(r.res.Failures, Failure{Input: input, Detail: d, Case: r.res.Evaluations})
	if len(r.res.Failures) >= r.max {
		panic(errStop)
	}
	return false
}

func (r *R) call(f func() string) (d string) {
	defer func() {
		if p := recover(); p != nil {
			st := strings.Split(string(debug.Stack()), "\n")
			at := ""
			for _, l := range st {
				if strings.Contains(l, "/repo/") {
					at = " at " + strings.TrimSpace(l)
					break
				}
			}
			d = fmt.Sprintf("panic: %v%s", p, at)
		}
	}()
	return f()
}

// Pick returns one of the strings.
func (r *R) Pick(l []string) string { return l[r.Intn(len(l))] }

// Str joins up to n picked strings.
func (r *R) Str(l []string, n int) string {
	var b strings.Builder
	for k := r.Intn(n + 1); k > 0; k-- {
		b.WriteString(r.Pick(l))
	}
	return b.String()
}

// All calls f with every string of up to n symbols.
func All(alpha []string, n int, f func(string)) {
	var rec func(s string, n int)
	rec = func(s string, n int) {
		f(s)
		if n > 0 {
			for _, a := range alpha {
				rec(s+a, n-1)
			}
		}
	}
	rec("", n)
}
