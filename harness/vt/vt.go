// Package vt is the small framework all checks share.
//
// A check is a generator of cases and a function which judges one case. A case
// is a plain value (it is written as JSON when it fails, and can be replayed
// from that), and judging it is a function of the case and of the code under
// test alone. rapid generates and shrinks the cases.
package vt

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Violation is a failed oracle. Cat is stable across cases (the shrinker uses
// it to stay on the same failure), Detail is for people.
type Violation struct {
	Cat    string
	Detail string
}

func (v *Violation) Error() string { return v.Cat + ": " + v.Detail }

// Violate makes a Violation.
func Violate(cat, format string, args ...any) error {
	return &Violation{Cat: cat, Detail: fmt.Sprintf(format, args...)}
}

// Ctx is given to the function which judges a case.
type Ctx struct {
	Prop    string
	classes map[string]int
	nontriv bool
	known   map[string]string
	seen    map[string]string // known findings met
	Replay  bool
}

// Sub makes a context for a part of the case which runs in its own goroutine.
func (c *Ctx) Sub() *Ctx {
	return &Ctx{Prop: c.Prop, classes: map[string]int{}, known: c.known, seen: map[string]string{}}
}

// Join adds what a part counted.
func (c *Ctx) Join(s *Ctx) {
	for k, n := range s.classes {
		c.classes[k] += n
	}
	for k, w := range s.seen {
		c.seen[k] = w
	}
}

// NonTrivial marks the case as non-trivial by the rule of the check.
func (c *Ctx) NonTrivial() { c.nontriv = true }

// Class counts an event of the case.
func (c *Ctx) Class(name string) { c.classes[name]++ }

// ClassN counts n events of the case.
func (c *Ctx) ClassN(name string, n int) {
	if n > 0 {
		c.classes[name] += n
	}
}

// Known reports whether the failure with this key is a recorded finding, and
// remembers that it was met.
func (c *Ctx) Known(key string) bool {
	what, ok := c.known[key]
	if ok {
		c.seen[key] = what
	}
	return ok
}

// Logf prints in replays only.
func (c *Ctx) Logf(format string, args ...any) {
	if c.Replay {
		fmt.Printf("  "+format+"\n", args...)
	}
}

type check struct {
	prop, name string
	quick      int
	thorough   int
	rule       string
	run        func(t *testing.T, ck *check, n int)
	replay     func(c *Ctx, raw json.RawMessage) error
	stats      stats
}

type stats struct {
	Evaluations int
	NonTrivial  map[uint64]struct{}
	Classes     map[string]int
	Samples     []json.RawMessage
	Known       map[string]string
}

var checks []*check

// Register adds a check of a property. quick and thorough are total numbers of
// cases over all shards.
func Register[C any](prop, name string, quick, thorough int, rule string, gen func(*rapid.T) C, run func(*Ctx, C) error) {
	ck := &check{prop: prop, name: name, quick: quick, thorough: thorough, rule: rule}
	judge := func(ctx *Ctx, c C) (err error) {
		defer func() {
			if r := recover(); r != nil {
				st := string(debug.Stack())
				err = &Violation{Cat: "panic", Detail: fmt.Sprintf("%v\n%s", r, st)}
			}
		}()
		return run(ctx, c)
	}
	ck.run = func(t *testing.T, ck *check, n int) {
		failed := false
		rapid.Check(t, func(rt *rapid.T) {
			c := gen(rt)
			raw, err := json.Marshal(c)
			if err != nil {
				panic(err)
			}
			writeCurrent(ck, raw)
			ctx := newCtx(ck.prop)
			err = judge(ctx, c)
			if !failed {
				ck.record(ctx, raw)
			}
			for k, w := range ctx.seen {
				ck.stats.Known[k] = w
			}
			if err == nil {
				return
			}
			failed = true
			cat := "error"
			if v, ok := err.(*Violation); ok {
				cat = v.Cat
			}
			writeFailure(ck, c, cat, err)
			rt.Fatalf("%s", cat)
		})
	}
	ck.replay = func(ctx *Ctx, raw json.RawMessage) error {
		var c C
		if err := json.Unmarshal(raw, &c); err != nil {
			panic("cannot read case: " + err.Error())
		}
		return judge(ctx, c)
	}
	checks = append(checks, ck)
}

func (ck *check) record(ctx *Ctx, raw []byte) {
	s := &ck.stats
	s.Evaluations++
	for k, n := range ctx.classes {
		s.Classes[k] += n
	}
	if !ctx.nontriv {
		return
	}
	h := fnv.New64a()
	h.Write([]byte(ck.name))
	h.Write(raw)
	s.NonTrivial[h.Sum64()] = struct{}{}
	if len(s.Samples) < 3 && len(raw) < 3000 {
		b, _ := json.Marshal(map[string]any{"check": ck.name, "case": json.RawMessage(raw), "events": ctx.classes})
		s.Samples = append(s.Samples, b)
	}
}

func newCtx(prop string) *Ctx {
	return &Ctx{Prop: prop, classes: map[string]int{}, known: knownFindings(prop), seen: map[string]string{}}
}

var (
	knownOnce sync.Once
	knownAll  map[string]map[string]string
)

// knownFindings reads the committed file of findings: lines
// "known: property=<id> key=<key> <what fails>".
func knownFindings(prop string) map[string]string {
	knownOnce.Do(func() {
		knownAll = map[string]map[string]string{}
		raw, err := os.ReadFile(os.Getenv("VT_KNOWN"))
		if err != nil {
			return
		}
		for _, line := range strings.Split(string(raw), "\n") {
			f := strings.Fields(line)
			if len(f) < 3 || f[0] != "known:" || !strings.HasPrefix(f[1], "property=") || !strings.HasPrefix(f[2], "key=") {
				continue
			}
			p, k := strings.TrimPrefix(f[1], "property="), strings.TrimPrefix(f[2], "key=")
			if knownAll[p] == nil {
				knownAll[p] = map[string]string{}
			}
			knownAll[p][k] = strings.Join(f[3:], " ")
		}
	})
	return knownAll[prop]
}

var currentFile *os.File

// writeCurrent leaves the case where the driver finds it if the process dies.
func writeCurrent(ck *check, raw []byte) {
	if currentFile == nil {
		f, err := os.Create(filepath.Join(os.Getenv("VT_OUT"), fmt.Sprintf("current-%s.json", os.Getenv("VT_SHARD"))))
		if err != nil {
			panic(err)
		}
		currentFile = f
	}
	caseStart.Store(cpuSeconds())
	watchOnce.Do(func() { go watch() })
	b := []byte(fmt.Sprintf(`{"property":%q,"check":%q,"case":%s}`, ck.prop, ck.name, raw))
	b = append(b, 0)
	currentFile.WriteAt(b, 0)
}

var (
	caseStart atomic.Int64
	watchOnce sync.Once
)

// caseLimit is how much processor time one case may take. Cases take well
// under a few seconds; time spent waiting for a busy machine does not count.
const caseLimit = 90

// blockLimit is after how many seconds without any progress a case is taken for
// stuck (waiting for something which never happens).
const blockLimit = 120

// rssLimit is how much memory, in kilobytes, a worker may use; they use a
// small part of it.
const rssLimit = 3 << 20

func maxRSS() int64 {
	var u syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &u) != nil {
		return 0
	}
	return u.Maxrss
}

func cpuSeconds() int64 { return cpuMillis() / 1000 }

func cpuMillis() int64 {
	var u syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &u) != nil {
		return 0
	}
	return (u.Utime.Sec+u.Stime.Sec)*1000 + (int64(u.Utime.Usec)+int64(u.Stime.Usec))/1000
}

// watch ends the process when a case does not end.
func watch() {
	var idle, used, start int64
	for {
		time.Sleep(2 * time.Second)
		// A process which gets to run every two seconds, but uses no time, waits.
		now, st := cpuMillis(), caseStart.Load()
		if st != start || now-used > 20 {
			idle = 0
		}
		idle++
		used, start = now, st
		if idle > blockLimit/2 {
			fmt.Printf("a case has made no progress for %d s\n", blockLimit)
			buf := make([]byte, 1<<16)
			fmt.Printf("%s\n", buf[:runtime.Stack(buf, true)])
			os.Exit(77)
		}
		if maxRSS() > rssLimit {
			fmt.Printf("a case used more than %d MB of memory\n", rssLimit>>10)
			os.Exit(77)
		}
		if cpuSeconds()-caseStart.Load() > caseLimit {
			fmt.Printf("a case took more than %d s of processor time\n", caseLimit)
			os.Exit(77)
		}
	}
}

type failure struct {
	Property string `json:"property"`
	Check    string `json:"check"`
	Category string `json:"category"`
	Detail   string `json:"detail"`
	Case     any    `json:"case"`
}

func writeFailure(ck *check, c any, cat string, err error) {
	f := failure{Property: ck.prop, Check: ck.name, Category: cat, Detail: err.Error(), Case: c}
	raw, _ := json.MarshalIndent(f, "", " ")
	os.WriteFile(filepath.Join(os.Getenv("VT_OUT"), fmt.Sprintf("fail-%s-%s.json", ck.name, os.Getenv("VT_SHARD"))), raw, 0o644)
}

func envInt(name string, def int) int {
	if v := os.Getenv(name); v != "" {
		n, err := strconv.Atoi(v)
		if err != nil {
			panic(name + ": " + err.Error())
		}
		return n
	}
	return def
}

// Thorough reports whether the thorough tier runs.
func Thorough() bool { return os.Getenv("VT_TIER") == "thorough" }

// Main runs the checks of one property, for one shard.
func Main(t *testing.T) {
	flag.Set("logtostderr", "true")
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		t.Fatal(err)
	}
	os.Stderr = null // glog; the runtime writes to the descriptor itself

	if path := os.Getenv("VT_REPLAY"); path != "" {
		replay(t, path)
		return
	}

	prop := os.Getenv("VT_PROP")
	only := os.Getenv("VT_ONLY")
	shard, shards := envInt("VT_SHARD", 0), envInt("VT_SHARDS", 1)
	seed := os.Getenv("VT_SEED")
	debug.SetGCPercent(200)

	sort.SliceStable(checks, func(i, j int) bool { return checks[i].name < checks[j].name })
	var out []map[string]any
	ran := 0
	for _, ck := range checks {
		if ck.prop != prop || (only != "" && ck.name != only) {
			continue
		}
		total := ck.quick
		if Thorough() {
			total = ck.thorough
		}
		if s := os.Getenv("VT_SCALE"); s != "" {
			f, _ := strconv.ParseFloat(s, 64)
			total = int(float64(total)*f) + 1
		}
		n := total / shards
		if shard < total%shards {
			n++
		}
		ran++
		ck.stats = stats{NonTrivial: map[uint64]struct{}{}, Classes: map[string]int{}, Known: map[string]string{}}
		if n > 0 {
			h := fnv.New64a()
			fmt.Fprintf(h, "%s|%s|%s|%d", seed, prop, ck.name, shard)
			s := h.Sum64()
			if s == 0 {
				s = 1
			}
			flag.Set("rapid.checks", strconv.Itoa(n))
			flag.Set("rapid.seed", strconv.FormatUint(s, 10))
			flag.Set("rapid.nofailfile", "true")
			flag.Set("rapid.shrinktime", "15s")
			if !t.Run(ck.name, func(t *testing.T) { ck.run(t, ck, n) }) {
				return // the violation is what counts, and it is written down
			}
		}
		hs := make([]string, 0, len(ck.stats.NonTrivial))
		for h := range ck.stats.NonTrivial {
			hs = append(hs, strconv.FormatUint(h, 16))
		}
		out = append(out, map[string]any{
			"check": ck.name, "rule": ck.rule, "planned": n, "evaluations": ck.stats.Evaluations, "hashes": hs,
			"rss_kb": maxRSS(), "classes": ck.stats.Classes, "samples": ck.stats.Samples, "known": ck.stats.Known,
		})
	}
	if ran == 0 {
		t.Fatalf("no checks for %q", prop)
	}
	raw, _ := json.Marshal(out)
	if err := os.WriteFile(filepath.Join(os.Getenv("VT_OUT"), fmt.Sprintf("stats-%d.json", shard)), raw, 0o644); err != nil {
		t.Fatal(err)
	}
}

func replay(t *testing.T, path string) {
	raw, err := os.ReadFile(path)
	if err != nil {
		t.Fatal(err)
	}
	var f struct {
		Property, Check string
		Case            json.RawMessage
	}
	if err := json.Unmarshal(raw, &f); err != nil {
		t.Fatal(err)
	}
	for _, ck := range checks {
		if ck.prop == f.Property && ck.name == f.Check {
			ctx := newCtx(ck.prop)
			ctx.Replay = true
			caseStart.Store(cpuSeconds())
			go watch()
			if err := ck.replay(ctx, f.Case); err != nil {
				fmt.Printf("REPRODUCED property=%s check=%s\n%s\n", f.Property, f.Check, err)
				t.Fail()
				return
			}
			fmt.Printf("NOT REPRODUCED property=%s check=%s\n", f.Property, f.Check)
			return
		}
	}
	t.Fatalf("no check %s of %s", f.Check, f.Property)
}
