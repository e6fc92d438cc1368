package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"sort"
	"strings"

	"github.com/tc-hib/winres"
)

// world is a session on several resource sets, recorded as events.
type world struct {
	r    *run
	s    *Session
	sets []*winres.ResourceSet
	live []map[key]bool // only used to choose interesting operations
	dead bool
	// Data given to Set often belongs to something bigger: slices of one array, with
	// spare capacity, or the very same slice under several keys.
	arena []byte
	used  [][]byte
}

// bytes returns n bytes of data to give to Set.
func (w *world) bytes(g *rand.Rand, n int) []byte {
	var b []byte
	switch x := g.Intn(8); {
	case x < 3:
		b = randBytes(g, n)
	case x < 6: // consecutive slices of one array
		if n > len(w.arena) || w.arena == nil {
			w.arena = randBytes(g, n+256+g.Intn(2000))
		}
		b, w.arena = w.arena[:n], w.arena[n:]
	case x == 6: // its own array, with room after it
		b = randBytes(g, n+64)[:n]
	default:
		if len(w.used) == 0 {
			return w.bytes(g, n)
		}
		b = w.used[g.Intn(len(w.used))]
		if n < len(b) && g.Intn(2) == 0 { // overlapping slices
			b = b[len(b)-n:]
		}
	}
	w.used = append(w.used, b)
	return b
}

// exact is bytes, of exactly that length.
func (w *world) exact(g *rand.Rand, n int) []byte {
	if b := w.bytes(g, n); len(b) == n {
		return b
	}
	return randBytes(g, n)
}

func newWorld(r *run, s *Session, n int) *world {
	w := &world{r: r, s: s}
	for i := 0; i < n; i++ {
		w.sets = append(w.sets, &winres.ResourceSet{})
		w.live = append(w.live, map[key]bool{})
	}
	s.add(Ev{"op": "new", "n": n})
	return w
}

func (w *world) do(op string, f func()) bool {
	if w.dead {
		return false
	}
	if !w.r.call(w.s, op, f) {
		w.dead = true
		return false
	}
	return true
}

// nothing records that a call returned neither a value nor an error.
func (w *world) nothing(op string) {
	w.dead = true
	w.s.add(Ev{"op": "crash", "in": op, "kind": "nothing", "msg": "neither a value nor an error"})
}

func (w *world) set(i int, t, r winres.Identifier, l uint16, data []byte) {
	var err error
	if !w.do("set", func() { err = w.sets[i].Set(t, r, l, data) }) {
		return
	}
	k := key{t, r, l}
	if data == nil {
		delete(w.live[i], k)
	} else if err == nil {
		w.live[i][k] = true
	}
	w.s.add(Ev{"op": "set", "s": i + 1, "t": encIdent(t), "r": encIdent(r), "l": int(l),
		"nil": data == nil, "d": digest(data), "err": err != nil})
}

// fillSet is many calls of Set, in one event.
func (w *world) fillSet(i int, leaves []leaf) {
	failed := false
	if !w.do("set", func() {
		for _, l := range leaves {
			failed = w.sets[i].Set(l.t, l.r, l.l, l.data) != nil || failed
		}
	}) {
		return
	}
	in := []Ev{}
	for _, l := range leaves {
		if l.data == nil {
			panic("fillSet does not delete")
		}
		in = append(in, entry(l.t, l.r, l.l, l.data))
		w.live[i][l.key] = true
	}
	w.s.add(Ev{"op": "fill", "s": i + 1, "in": in, "err": failed})
}

func (w *world) get(i int, t, r winres.Identifier, l uint16) {
	var data []byte
	if !w.do("get", func() { data = w.sets[i].Get(t, r, l) }) {
		return
	}
	w.s.add(Ev{"op": "get", "s": i + 1, "t": encIdent(t), "r": encIdent(r), "l": int(l), "nil": data == nil, "d": digest(data)})
}

func (w *world) count(i int) {
	var n int
	if !w.do("count", func() { n = w.sets[i].Count() }) {
		return
	}
	w.s.add(Ev{"op": "count", "s": i + 1, "n": n})
}

func entry(t, r winres.Identifier, l uint16, data []byte) Ev {
	return Ev{"t": encIdent(t), "r": encIdent(r), "l": int(l), "d": digest(data)}
}

// walkAll is a plain listing, without event.
func walkAll(rs *winres.ResourceSet) []Ev {
	out := []Ev{}
	rs.Walk(func(t, r winres.Identifier, l uint16, data []byte) bool {
		out = append(out, entry(t, r, l, data))
		return true
	})
	return out
}

// walk stops after stop calls, or never if stop is zero.
func (w *world) walk(i int, stop int) {
	out := []Ev{}
	if !w.do("walk", func() {
		w.sets[i].Walk(func(t, r winres.Identifier, l uint16, data []byte) bool {
			out = append(out, entry(t, r, l, data))
			return len(out) != stop
		})
	}) {
		return
	}
	w.s.add(Ev{"op": "walk", "s": i + 1, "stop": stop, "out": out})
}

func (w *world) walkType(i int, t winres.Identifier, stop int) {
	out := []Ev{}
	if !w.do("walktype", func() {
		w.sets[i].WalkType(t, func(r winres.Identifier, l uint16, data []byte) bool {
			out = append(out, entry(t, r, l, data))
			return len(out) != stop
		})
	}) {
		return
	}
	w.s.add(Ev{"op": "walktype", "s": i + 1, "t": encIdent(t), "stop": stop, "out": out})
}

// object writes an object and records its digest.
func (w *world) object(i int, arch winres.Arch) []byte {
	buf := &capBuffer{}
	var err error
	if !w.do("object", func() { err = w.sets[i].WriteObject(buf, arch) }) {
		return nil
	}
	w.s.add(Ev{"op": "object", "s": i + 1, "arch": string(arch), "err": err != nil, "d": digest(buf.Bytes())})
	return buf.Bytes()
}

// together writes several sets, each in its own goroutine, many times, and records what came out.
func (w *world) together(sets []int, arch winres.Arch, name string, src []byte) {
	type result struct{ obj, exe map[string]bool }
	out := make([]result, len(sets))
	if !w.do("together", func() {
		errs := make(chan interface{}, len(sets))
		for j, i := range sets {
			out[j] = result{map[string]bool{}, map[string]bool{}}
			go func(rs *winres.ResourceSet, res result) {
				defer func() { errs <- recover() }()
				for n := 0; n < 8; n++ {
					buf := &capBuffer{}
					err := rs.WriteObject(buf, arch)
					res.obj[fmt.Sprint(err != nil, " ", digest(buf.Bytes()))] = true
					buf = &capBuffer{}
					err = rs.WriteToEXE(buf, bytes.NewReader(src))
					res.exe[fmt.Sprint(err != nil, " ", digest(buf.Bytes()))] = true
				}
			}(w.sets[i], out[j])
		}
		var failed interface{}
		for range sets {
			if x := <-errs; x != nil {
				failed = x
			}
		}
		if failed != nil {
			panic(failed)
		}
	}) {
		return
	}
	for j, i := range sets {
		for _, x := range []struct {
			ev Ev
			m  map[string]bool
		}{{Ev{"op": "object", "arch": string(arch)}, out[j].obj}, {Ev{"op": "exe", "src": name}, out[j].exe}} {
			var ks []string
			for k := range x.m {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				e := Ev{"s": i + 1, "err": strings.HasPrefix(k, "true"), "d": k[strings.Index(k, " ")+1:]}
				for f, v := range x.ev {
					e[f] = v
				}
				w.s.add(e)
			}
		}
	}
}

// exe patches a PE image and records its digest.
func (w *world) exe(i int, name string, src []byte) []byte {
	buf := &capBuffer{}
	var err error
	if !w.do("exe", func() { err = w.sets[i].WriteToEXE(buf, bytes.NewReader(src)) }) {
		return nil
	}
	w.s.add(Ev{"op": "exe", "s": i + 1, "src": name, "err": err != nil, "d": digest(buf.Bytes())})
	if err != nil {
		return nil
	}
	return buf.Bytes()
}

// reload embeds set i in an executable, and loads the result into set j.
func (w *world) reload(i, j int, src []byte) {
	var (
		err  error
		err2 error
		rs   *winres.ResourceSet
	)
	if !w.do("reload", func() {
		buf := &capBuffer{}
		err = w.sets[i].WriteToEXE(buf, bytes.NewReader(src))
		if err == nil {
			rs, err2 = winres.LoadFromEXE(bytes.NewReader(buf.Bytes()))
		}
	}) {
		return
	}
	if rs == nil {
		rs = &winres.ResourceSet{}
	}
	w.sets[j] = rs
	live := map[key]bool{}
	for k := range w.live[i] {
		live[k] = true
	}
	w.live[j] = live
	w.s.add(Ev{"op": "reload", "s": i + 1, "to": j + 1, "werr": err != nil, "lerr": err2 != nil})
}

func (w *world) clear(i int) {
	for _, k := range w.liveKeys(i) {
		w.set(i, k.t, k.r, k.l, nil)
	}
}

func (w *world) randLive(g *rand.Rand, i int) (key, bool) {
	if len(w.live[i]) == 0 {
		return key{}, false
	}
	keys := w.liveKeys(i)
	return keys[g.Intn(len(keys))], true
}

func (w *world) liveKeys(i int) []key {
	keys := make([]key, 0, len(w.live[i]))
	for k := range w.live[i] {
		keys = append(keys, k)
	}
	sortKeys(keys)
	return keys
}

func cmpInts(a, b []int) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return a[i] - b[i]
		}
	}
	return len(a) - len(b)
}

func sortKeys(keys []key) {
	sort.Slice(keys, func(x, y int) bool {
		a, b := keys[x], keys[y]
		if c := cmpInts(encIdent(a.t), encIdent(b.t)); c != 0 {
			return c < 0
		}
		if c := cmpInts(encIdent(a.r), encIdent(b.r)); c != 0 {
			return c < 0
		}
		return a.l < b.l
	})
}

// keyPool is the keys a session plays with.
type keyPool struct {
	types, ress []winres.Identifier
	langs       []uint16
}

func newPool(g *rand.Rand, nt, nr, nl int) keyPool {
	var p keyPool
	has := map[winres.Identifier]bool{}
	for len(p.types) < nt {
		id := randIdent(g)
		if !has[id] {
			has[id] = true
			p.types = append(p.types, id)
		}
	}
	has = map[winres.Identifier]bool{}
	for len(p.ress) < nr {
		id := randIdent(g)
		if g.Intn(6) == 0 { // names shared between levels
			id = p.types[g.Intn(len(p.types))]
		}
		if !has[id] {
			has[id] = true
			p.ress = append(p.ress, id)
		}
	}
	hasL := map[uint16]bool{}
	for len(p.langs) < nl {
		l := randLang(g)
		if !hasL[l] {
			hasL[l] = true
			p.langs = append(p.langs, l)
		}
	}
	return p
}

func (p keyPool) key(g *rand.Rand) key {
	return key{p.types[g.Intn(len(p.types))], p.ress[g.Intn(len(p.ress))], p.langs[g.Intn(len(p.langs))]}
}

// final observes everything: one lookup per key of the pool, count, walks, and an object.
func (w *world) final(i int, p keyPool, gets bool) {
	w.walk(i, 0)
	w.count(i)
	for _, t := range p.types {
		w.walkType(i, t, 0)
	}
	if gets {
		for _, t := range p.types {
			for _, r := range p.ress {
				for _, l := range p.langs {
					w.get(i, t, r, l)
				}
			}
		}
	}
}

// mix runs n random operations on set i.
func (w *world) mix(g *rand.Rand, i int, p keyPool, n int, img []byte) {
	for ; n > 0 && !w.dead; n-- {
		switch x := g.Intn(100); {
		case x < 40:
			k := p.key(g)
			w.set(i, k.t, k.r, k.l, w.bytes(g, randDataLen(g)))
		case x < 55:
			k, ok := w.randLive(g, i)
			if !ok || g.Intn(5) == 0 {
				k = p.key(g)
			}
			w.set(i, k.t, k.r, k.l, nil)
		case x < 60:
			k, ok := w.randLive(g, i)
			if !ok {
				k = p.key(g)
			}
			w.set(i, k.t, k.r, k.l, w.bytes(g, randDataLen(g)))
		case x < 63:
			k := p.key(g)
			var data []byte
			if g.Intn(3) > 0 {
				data = []byte("invalid")
			}
			if g.Intn(2) == 0 {
				w.set(i, invalidIdent(g), k.r, k.l, data)
			} else {
				w.set(i, k.t, invalidIdent(g), k.l, data)
			}
		case x < 70:
			k := p.key(g)
			w.get(i, k.t, k.r, k.l)
		case x < 74:
			w.count(i)
		case x < 86:
			stop := 0
			if g.Intn(3) == 0 {
				stop = 1 + g.Intn(6)
			}
			w.walk(i, stop)
		case x < 94:
			stop := 0
			if g.Intn(3) == 0 {
				stop = 1 + g.Intn(3)
			}
			w.walkType(i, p.types[g.Intn(len(p.types))], stop)
		case x < 97:
			w.object(i, arches[g.Intn(4)])
		default:
			if img != nil {
				w.exe(i, "img", img)
			}
		}
	}
}

type genOp struct {
	Op string `json:"op"`
	K  int    `json:"k"`
}

// genPools are the concrete keys given to the abstract keys of ResourceSetGen:
// k1 and k2 only differ by their language, k3 has another resource, k4 has another type.
var genPools = [][4]key{
	{{winres.ID(10), winres.ID(1), 0}, {winres.ID(10), winres.ID(1), 0x409}, {winres.ID(10), winres.Name("A"), 0}, {winres.Name("T"), winres.ID(1), 0}},
	{{winres.Name("b"), winres.Name("B"), 0xFFFF}, {winres.Name("b"), winres.Name("B"), 0x8000}, {winres.Name("b"), winres.Name("b"), 0xFFFF}, {winres.Name("B"), winres.Name("B"), 0xFFFF}},
	{{winres.RT_ICON, winres.ID(0xFFFF), 1}, {winres.RT_ICON, winres.ID(0xFFFF), 0}, {winres.RT_ICON, winres.ID(0xFF), 1}, {winres.RT_GROUP_ICON, winres.ID(0xFFFF), 1}},
}

func init() {
	families["rset"] = genRset
	families["canon"] = genCanon
}

// genRset records histories of a resource set (C01, C02).
func genRset(r *run) {
	img := simplePE(r.rng)
	r.readCases(func(i int, raw json.RawMessage) {
		var ops []genOp
		if err := json.Unmarshal(raw, &ops); err != nil {
			panic(err)
		}
		s := r.begin("spec-%d", i)
		w := newWorld(r, s, 1)
		pool := genPools[i%len(genPools)]
		for j, o := range ops {
			var k key
			if o.K > 0 {
				k = pool[o.K-1]
			}
			switch o.Op {
			case "set":
				w.set(0, k.t, k.r, k.l, []byte{byte(j), byte(o.K)})
			case "del":
				w.set(0, k.t, k.r, k.l, nil)
			case "walk":
				w.walk(0, 0)
			case "walktype":
				w.walkType(0, pool[0].t, 0)
			case "write":
				w.object(0, winres.ArchAMD64)
			case "get":
				w.get(0, k.t, k.r, k.l)
			}
		}
		w.walk(0, 0)
		w.walkType(0, pool[0].t, 0)
		w.count(0)
		for _, k := range pool {
			w.get(0, k.t, k.r, k.l)
		}
		r.end(s)
	})

	n := r.pick(700, 4000)
	for i := 0; i < n; i++ {
		g := rand.New(rand.NewSource(r.rng.Int63()))
		s := r.begin("mix-%d", i)
		w := newWorld(r, s, 1)
		var p keyPool
		switch i % 4 {
		case 0:
			p = newPool(g, 1, 2, 3)
		case 1:
			p = newPool(g, 2, 2, 2)
		case 2:
			p = newPool(g, 4, 4, 2)
		case 3:
			p = newPool(g, 3, 8, 4)
		}
		w.mix(g, 0, p, 10+g.Intn(50), img)
		w.final(0, p, true)
		r.end(s)
	}

	// many keys
	n = r.pick(6, 30)
	for i := 0; i < n; i++ {
		g := rand.New(rand.NewSource(r.rng.Int63()))
		s := r.begin("many-%d", i)
		w := newWorld(r, s, 1)
		p := newPool(g, 1+g.Intn(30), 20+g.Intn(40), 1+g.Intn(6))
		for j := 0; j < 300; j++ {
			k := p.key(g)
			w.set(0, k.t, k.r, k.l, w.bytes(g, g.Intn(10)))
			if j%97 == 50 {
				w.walk(0, 0)
			}
			if g.Intn(4) == 0 {
				if k, ok := w.randLive(g, 0); ok {
					w.set(0, k.t, k.r, k.l, nil)
				}
			}
		}
		w.walk(0, 0)
		w.count(0)
		for j := 0; j < 100; j++ {
			k := p.key(g)
			w.get(0, k.t, k.r, k.l)
		}
		for _, t := range p.types {
			w.walkType(0, t, g.Intn(4)*5)
		}
		for _, k := range w.liveKeys(0) {
			w.set(0, k.t, k.r, k.l, nil)
		}
		w.walk(0, 0)
		w.count(0)
		r.end(s)
	}

	// every ordinal, as a type, a resource and a language
	for lvl := 0; lvl < 3 && (r.thorough() || lvl < 2); lvl++ {
		s := r.begin("ordinals-%d", lvl)
		w := newWorld(r, s, 1)
		step := r.pick(257, 31)
		for v := 1; v <= 0xFFFF; v += step {
			switch lvl {
			case 0:
				w.set(0, winres.ID(v), winres.ID(1), 0, []byte{byte(v)})
			case 1:
				w.set(0, winres.ID(1), winres.ID(v), 0, []byte{byte(v)})
			case 2:
				w.set(0, winres.ID(1), winres.ID(1), uint16(v), []byte{byte(v)})
			}
		}
		w.walk(0, 0)
		w.count(0)
		w.walkType(0, winres.ID(1), 0)
		r.end(s)
	}
}

var errSink = errors.New("sink")

// genCanon records sets with equal contents but different histories (C05).
func genCanon(r *run) {
	n := r.pick(450, 2500)
	for i := 0; i < n; i++ {
		g := rand.New(rand.NewSource(r.rng.Int63()))
		s := r.begin("canon-%d", i)
		w := newWorld(r, s, 3)
		img := simplePE(g)
		var p keyPool
		switch i % 3 {
		case 0:
			p = newPool(g, 1+g.Intn(2), 1+g.Intn(3), 1+g.Intn(4))
		case 1:
			p = newPool(g, 3, 4, 3)
		case 2:
			p = newPool(g, 2+g.Intn(12), 2+g.Intn(8), 2)
		}
		target := map[key][]byte{}
		for j := 1 + g.Intn(12); j > 0; j-- {
			target[p.key(g)] = w.bytes(g, randDataLen(g))
		}
		var keys []key
		for k := range target {
			keys = append(keys, k)
		}
		sortKeys(keys)
		observe := func(i int) {
			w.object(i, winres.ArchAMD64)
			w.object(i, arches[g.Intn(4)])
			w.exe(i, "img", img)
			if g.Intn(2) == 0 {
				w.object(i, winres.ArchAMD64)
				w.exe(i, "img", img)
			}
			w.walk(i, 0)
			w.count(i)
		}
		// set 1: in order
		for _, k := range keys {
			w.set(0, k.t, k.r, k.l, target[k])
		}
		observe(0)
		// set 2: a random history, with temporary keys, other values, and observations
		order := g.Perm(len(keys))
		noise := func() {
			k := p.key(g)
			switch g.Intn(8) {
			case 0, 1:
				if _, ok := target[k]; !ok {
					w.set(1, k.t, k.r, k.l, w.bytes(g, 9))
				}
			case 2:
				w.walk(1, g.Intn(3))
			case 3:
				w.walkType(1, k.t, 0)
			case 4:
				w.object(1, winres.ArchAMD64)
			case 5:
				w.get(1, k.t, k.r, k.l)
				w.count(1)
			case 6:
				if k, ok := w.randLive(g, 1); ok {
					w.set(1, k.t, k.r, k.l, nil)
				}
			case 7:
				w.exe(1, "img", img)
			}
		}
		for _, j := range order {
			k := keys[j]
			if g.Intn(3) == 0 {
				w.set(1, k.t, k.r, k.l, w.bytes(g, g.Intn(12)))
				noise()
			}
			w.set(1, k.t, k.r, k.l, target[k])
			for g.Intn(2) == 0 {
				noise()
			}
		}
		for _, k := range w.liveKeys(1) {
			if _, ok := target[k]; !ok {
				w.set(1, k.t, k.r, k.l, nil)
			}
		}
		for _, j := range g.Perm(len(keys)) {
			k := keys[j]
			if !w.live[1][k] || g.Intn(4) == 0 {
				w.set(1, k.t, k.r, k.l, target[k])
			}
		}
		observe(1)
		// set 3: loaded from a file
		w.reload(g.Intn(2), 2, img)
		if g.Intn(2) == 0 && len(keys) > 0 {
			k := keys[g.Intn(len(keys))]
			w.set(2, k.t, k.r, k.l, nil)
			noise3 := p.key(g)
			if _, ok := target[noise3]; !ok {
				w.set(2, noise3.t, noise3.r, noise3.l, []byte("temporary"))
				w.walk(2, 0)
				w.set(2, noise3.t, noise3.r, noise3.l, nil)
			}
			w.set(2, k.t, k.r, k.l, target[k])
		}
		observe(2)
		observe(0)
		// other sets may be written at the same time
		if i%4 == 0 {
			w.clear(2)
			for j := 2 + g.Intn(20); j > 0; j-- {
				k := p.key(g)
				w.set(2, k.t, k.r, k.l, w.bytes(g, randDataLen(g)))
			}
			w.together([]int{0, 1, 2}, arches[g.Intn(4)], "img", img)
			observe(2)
		}
		r.end(s)
	}
}

var _ = io.EOF
