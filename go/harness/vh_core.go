package main

// The harness runs inside the tool's own program: started with --prop it
// executes cases instead of the tool, started as "osmium" it plays that program.

import (
	"bufio"
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
)

type vhRng struct{ s uint64 }

func (r *vhRng) next() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}
func (r *vhRng) below(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.next() % uint64(n))
}
func (r *vhRng) in(lo, hi int) int   { return lo + r.below(hi-lo+1) }
func (r *vhRng) chance(pct int) bool { return r.below(100) < pct }
func (r *vhRng) real() float64       { return float64(r.next()>>11) / 9007199254740992.0 }
func (r *vhRng) shuffle(n int, swap func(i, j int)) {
	for i := n; i > 1; i-- {
		swap(i-1, r.below(i))
	}
}

type vhCtx struct {
	r        vhRng
	idx      uint64
	thorough bool
	scratch  string
	sigv     uint64
	nontriv  bool
	checks   uint64
	sample   string
	stats    map[string]uint64
	fails    int
}

var vhOut = bufio.NewWriter(os.Stdout)

func (c *vhCtx) fail(key string, args ...interface{}) {
	c.fails++
	if c.fails > 20 {
		return
	}
	d := fmt.Sprint(args...)
	if len(d) > 1500 {
		d = d[:1500]
	}
	d = strings.NewReplacer("\n", " ", "\r", " ").Replace(d)
	fmt.Fprintf(vhOut, "VIOL|%s|%d|%s\n", key, c.idx, d)
	vhOut.Flush()
}

func (c *vhCtx) check(ok bool, key string, args ...interface{}) bool {
	c.checks++
	if !ok {
		c.fail(key, args...)
	}
	return ok
}

func (c *vhCtx) eq(got, want interface{}, key string, args ...interface{}) bool {
	c.checks++
	g, w := fmt.Sprintf("%v", got), fmt.Sprintf("%v", want)
	if g != w {
		c.fail(key, fmt.Sprint(args...), " got ", g, " expected ", w)
	}
	return g == w
}

func (c *vhCtx) sig(s string) {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	c.sigv ^= h + 0x9E3779B97F4A7C15 + (c.sigv << 6) + (c.sigv >> 2)
}

func (c *vhCtx) stat(name string, n int) { c.stats[name] += uint64(n) }
func (c *vhCtx) note(args ...interface{}) {
	if len(c.sample) < 600 {
		c.sample += fmt.Sprint(args...)
	}
}

var vhProps = map[string]func(c *vhCtx){}

func vhFlag(name, def string) string {
	for i := 1; i+1 < len(os.Args); i++ {
		if os.Args[i] == "--"+name {
			return os.Args[i+1]
		}
	}
	return def
}

func vhHas(name string) bool {
	for _, a := range os.Args[1:] {
		if a == "--"+name {
			return true
		}
	}
	return false
}

func vhNum(s string) uint64 {
	n, _ := strconv.ParseUint(s, 10, 64)
	return n
}

func init() {
	if filepath.Base(os.Args[0]) == "osmium" {
		os.Exit(vhOsmium(os.Args[1:]))
	}
	if !vhHas("prop") {
		return // the tool itself
	}
	vhRegister()
	vhRun()
	os.Exit(0)
}

// vhQuiet calls f while what the tool prints goes nowhere.
func vhQuiet(f func()) {
	old := os.Stdout
	null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	if err == nil {
		os.Stdout = null
		defer func() { os.Stdout = old; null.Close() }()
	}
	f()
}

func vhRun() {
	prop := vhFlag("prop", "")
	run, ok := vhProps[prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "no such property: "+prop)
		os.Exit(64)
	}
	seed, from, to := vhNum(vhFlag("seed", "1")), vhNum(vhFlag("from", "0")), vhNum(vhFlag("to", "1"))
	scratch := vhFlag("scratch", ".")
	if v := vhFlag("case", ""); v != "" {
		from = vhNum(v)
		to = from + 1
	}
	var progress, sigs *os.File
	if p := vhFlag("progress", ""); p != "" {
		progress, _ = os.Create(p)
	}
	if p := vhFlag("sigs", ""); p != "" {
		sigs, _ = os.Create(p)
	}
	stats := map[string]uint64{}
	var ran, checks uint64
	for i := from; i < to; i++ {
		var b [16]byte
		binary.LittleEndian.PutUint64(b[:8], i)
		binary.LittleEndian.PutUint64(b[8:], i+1)
		if progress != nil {
			progress.WriteAt(b[:], 0)
		}
		s := vhRng{seed*0x9E3779B97F4A7C15 ^ (i + 1)}
		for _, ch := range prop {
			s.s = s.next() ^ uint64(ch)
		}
		c := &vhCtx{r: vhRng{s.next()}, idx: i, thorough: vhHas("thorough"), scratch: scratch, stats: map[string]uint64{}}
		func() {
			defer func() {
				if e := recover(); e != nil {
					where := ""
					for _, l := range strings.Split(string(debug.Stack()), "\n") {
						l = strings.TrimSpace(l)
						if strings.HasPrefix(l, "transform-osm/") || strings.HasPrefix(l, "main.") {
							where += " in " + l
						}
					}
					c.fail("panic", e, where)
				}
			}()
			run(c)
		}()
		ran++
		checks += c.checks
		for k, v := range c.stats {
			stats[k] += v
		}
		if c.nontriv {
			if sigs != nil {
				var w [8]byte
				binary.LittleEndian.PutUint64(w[:], c.sigv)
				sigs.Write(w[:])
			}
			if c.sample != "" && i%7 == 0 {
				fmt.Fprintf(vhOut, "SAMPLE|%d|%s\n", i, strings.ReplaceAll(c.sample, "\n", " "))
			}
		}
	}
	names := []string{}
	for k := range stats {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		fmt.Fprintf(vhOut, "STAT|%s|%d\n", k, stats[k])
	}
	fmt.Fprintf(vhOut, "COUNT|%d|%d\nDONE\n", ran, checks)
	vhOut.Flush()
}
