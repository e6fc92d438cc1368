// Command driver executes sessions of public API calls of github.com/tc-hib/winres
// and records what each call did, one session per line, for validation against
// the TLA+ specifications in ../spec.
//
// It never judges anything: verdicts are TLC's, on the recorded sessions.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"sync/atomic"
	"time"
)

// Ev is an event: one call of the code under test, with its arguments and results.
type Ev map[string]interface{}

// Session is a sequence of events starting from a fresh state.
type Session struct {
	ID  string `json:"id"`
	Ev  []Ev   `json:"ev"`
	Aux Ev     `json:"aux,omitempty"`
}

type run struct {
	seed    int64
	tier    string
	cases   string
	rng     *rand.Rand
	out     *bufio.Writer
	f       *os.File
	n       int
	events  int
	ops     map[string]int
	only    string
	journal *os.File
	cur     *Session
	hung    bool
}

// opTimeout is how long a single call may take before it is considered not to return.
const opTimeout = 90 * time.Second

var families = map[string]func(*run){}

func main() {
	var (
		family  = flag.String("family", "", "family of sessions to record")
		seed    = flag.Int64("seed", 1, "seed")
		tier    = flag.String("tier", "quick", "quick or thorough")
		cases   = flag.String("cases", "", "cases generated by TLC (ndjson)")
		out     = flag.String("out", "", "output file (ndjson)")
		stats   = flag.String("stats", "", "statistics file (json)")
		journal = flag.String("journal", "", "file that holds the session being recorded")
	)
	flag.Parse()
	f, ok := families[*family]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown family", *family)
		os.Exit(3)
	}
	debug.SetGCPercent(200)
	if s, err := strconv.Atoi(os.Getenv("VERIF_SECONDS")); err == nil {
		deadline = time.Now().Add(time.Duration(s) * time.Second)
	}
	file, err := os.Create(*out)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	r := &run{
		seed:  *seed,
		tier:  *tier,
		cases: *cases,
		rng:   rand.New(rand.NewSource(*seed*1000003 + int64(len(*family))*7919 + int64((*family)[0]))),
		f:     file,
		out:   bufio.NewWriterSize(file, 1<<20),
		ops:   map[string]int{},
	}
	if *journal != "" {
		r.journal, err = os.Create(*journal)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	}
	func() {
		defer func() {
			x := recover()
			if x == nil || x == errHang || x == errLate {
				return
			}
			if r.cur != nil && bytes.Contains(debug.Stack(), []byte("github.com/tc-hib/winres.")) {
				// a call of the code under test, while preparing something
				s := r.cur
				s.add(Ev{"op": "crash", "in": "prepare", "kind": "panic", "msg": fmt.Sprint(x)})
				r.end(s)
				return
			}
			r.out.Flush()
			panic(x)
		}()
		f(r)
	}()
	if err := r.out.Flush(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	file.Close()
	if *stats != "" {
		b, _ := json.Marshal(map[string]interface{}{"sessions": r.n, "events": r.events, "ops": r.ops})
		os.WriteFile(*stats, b, 0o644)
	}
}

func (r *run) thorough() bool { return r.tier == "thorough" }

// pick returns q or t depending on the tier.
func (r *run) pick(q, t int) int {
	if r.thorough() {
		return t
	}
	return q
}

func (r *run) begin(format string, a ...interface{}) *Session {
	s := &Session{ID: fmt.Sprintf(format, a...)}
	r.cur = s
	if r.journal != nil {
		r.journal.Truncate(0)
		r.journal.WriteAt([]byte(s.ID), 0)
	}
	return s
}

func (r *run) end(s *Session) {
	if s.Ev == nil {
		s.Ev = []Ev{}
	}
	b, err := json.Marshal(s)
	if err != nil {
		panic(err)
	}
	r.out.Write(b)
	r.out.WriteByte('\n')
	r.n++
	r.events += len(s.Ev)
	for _, e := range s.Ev {
		r.ops[fmt.Sprint(e["op"])]++
	}
	r.cur = nil
	if late() {
		panic(errLate)
	}
}

func late() bool { return !deadline.IsZero() && time.Now().After(deadline) }

// deadline is when recording stops: what was recorded until then is judged.
// The code as it is never needs that long.
var deadline time.Time

type lateError struct{}

var errLate = lateError{}

func (s *Session) add(e Ev) { s.Ev = append(s.Ev, e) }

type hangError struct{}

var errHang = hangError{}

var hangs int32

// call executes f, which calls the code under test.
// If f panics or does not return, it records a "crash" event, that no specification accepts, and returns false.
func (r *run) call(s *Session, op string, f func()) bool {
	type result struct {
		panicked bool
		msg      string
	}
	done := make(chan result, 1)
	go func() {
		defer func() {
			if x := recover(); x != nil {
				done <- result{true, fmt.Sprint(x)}
			}
		}()
		f()
		done <- result{}
	}()
	t := time.NewTimer(opTimeout)
	defer t.Stop()
	select {
	case res := <-done:
		if res.panicked {
			s.add(Ev{"op": "crash", "in": op, "kind": "panic", "msg": res.msg})
			return false
		}
		return true
	case <-t.C:
		atomic.AddInt32(&hangs, 1)
		s.add(Ev{"op": "crash", "in": op, "kind": "hang", "msg": "no answer within " + opTimeout.String()})
		r.end(s)
		panic(errHang)
	}
}

func sortedKeys(m map[string]int) []string {
	var k []string
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}

// readCases reads the cases generated by TLC.
func (r *run) readCases(each func(i int, raw json.RawMessage)) {
	if r.cases == "" {
		return
	}
	f, err := os.Open(r.cases)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for i := 0; sc.Scan(); i++ {
		each(i, append(json.RawMessage(nil), sc.Bytes()...))
	}
	if sc.Err() != nil {
		panic(sc.Err())
	}
}
