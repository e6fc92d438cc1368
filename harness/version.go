package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"strings"
	"time"
	"unicode/utf16"

	"github.com/tc-hib/winres/version"
)

func init() {
	families["version"] = genVersion
	families["verbin"] = genVerBin
	families["verjson"] = genVerJSON
}

func units(s string) []int {
	out := []int{}
	for _, u := range utf16.Encode([]rune(s)) {
		out = append(out, int(u))
	}
	return out
}

// pairs projects a table of strings.
func strPairs(m map[string]string) []interface{} {
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	out := []interface{}{}
	for _, k := range keys {
		out = append(out, []interface{}{units(k), units(m[k])})
	}
	return out
}

func langPairs(lt version.LangTable) []interface{} {
	var ls []int
	for l := range lt {
		ls = append(ls, int(l))
	}
	sort.Ints(ls)
	out := []interface{}{}
	for _, l := range ls {
		m := map[string]string{}
		if lt[uint16(l)] != nil {
			m = *lt[uint16(l)]
		}
		out = append(out, []interface{}{l, strPairs(m)})
	}
	return out
}

var epoch1601 = time.Date(1601, 1, 1, 0, 0, 0, 0, time.UTC)

// projectTime gives an exact date, and the number of units of 100 ns since 1601.
func projectTime(t time.Time) (ts, tk []int, rem bool) {
	if t.IsZero() {
		return []int{}, []int{0, 0, 0, 0}, false
	}
	sec := t.Unix() + 62135596800
	ts = []int{int(sec >> 24), int(sec & 0xFFFFFF), t.Nanosecond()}
	n := big.NewInt(t.Unix() - epoch1601.Unix())
	n.Mul(n, big.NewInt(10000000))
	n.Add(n, big.NewInt(int64(t.Nanosecond()/100)))
	if n.Sign() < 0 || n.BitLen() > 63 {
		return ts, []int{0, 0, 0, 0}, false
	}
	v := n.Uint64()
	return ts, []int{int(v >> 48), int(v >> 32 & 0xFFFF), int(v >> 16 & 0xFFFF), int(v & 0xFFFF)}, t.Nanosecond()%100 != 0
}

func projectInfo(vi *version.Info) Ev {
	ver := func(v [4]uint16) []int { return []int{int(v[0]), int(v[1]), int(v[2]), int(v[3])} }
	ts, tk, rem := projectTime(vi.Timestamp)
	return Ev{
		"fv": ver(vi.FileVersion), "pv": ver(vi.ProductVersion),
		"fl": []bool{vi.Flags.Debug, vi.Flags.Prerelease, vi.Flags.Patched, vi.Flags.PrivateBuild, vi.Flags.SpecialBuild},
		"ty": int(vi.Type), "ts": ts, "tk": tk, "rem": rem, "lt": langPairs(vi.Table()),
	}
}

type verWorld struct {
	r    *run
	s    *Session
	vi   map[int]*version.Info
	dead bool
}

func newVerWorld(r *run, s *Session) *verWorld {
	return &verWorld{r: r, s: s, vi: map[int]*version.Info{}}
}

func (w *verWorld) do(op string, f func()) bool {
	if w.dead {
		return false
	}
	if !w.r.call(w.s, op, f) {
		w.dead = true
	}
	return !w.dead
}

func (w *verWorld) made(i int, vi *version.Info) {
	if w.dead {
		return
	}
	w.vi[i] = vi
	w.s.add(Ev{"op": "made", "i": i, "after": projectInfo(vi)})
}

func (w *verWorld) set(i int, l uint16, k, v string) {
	var err error
	if !w.do("vset", func() { err = w.vi[i].Set(l, k, v) }) {
		return
	}
	w.s.add(Ev{"op": "vset", "i": i, "l": int(l), "key": units(k), "val": units(v), "err": err != nil, "after": projectInfo(w.vi[i])})
}

func (w *verWorld) setVersion(i int, product bool, text string) {
	if !w.do("setversion", func() {
		if product {
			w.vi[i].SetProductVersion(text)
		} else {
			w.vi[i].SetFileVersion(text)
		}
	}) {
		return
	}
	w.s.add(Ev{"op": "setversion", "i": i, "product": product, "text": units(text), "after": projectInfo(w.vi[i])})
}

// table reads the table, modifies what it was given in every way, and looks at the info again.
func (w *verWorld) table(g *rand.Rand, i int) {
	var (
		lt  version.LangTable
		out []interface{}
	)
	if !w.do("table", func() {
		lt = w.vi[i].Table()
		out = langPairs(lt)
		for _, l := range tableLangs(lt) {
			st := lt[l]
			if st == nil {
				continue
			}
			if *st == nil {
				*st = version.StringTable{}
			}
			for _, k := range tableKeys(*st) {
				switch g.Intn(3) {
				case 0:
					(*st)[k] = "modified"
				case 1:
					delete(*st, k)
				}
			}
			(*st)["added"] = "added"
			switch g.Intn(3) {
			case 0:
				delete(lt, l)
			case 1:
				lt[l] = &version.StringTable{"x": "y"}
			}
		}
		if lt != nil {
			lt[0x1234] = &version.StringTable{"x": "y"}
		}
	}) {
		return
	}
	w.s.add(Ev{"op": "table", "i": i, "t": out, "after": projectInfo(w.vi[i])})
}

func tableLangs(lt version.LangTable) []uint16 {
	var ls []uint16
	for l := range lt {
		ls = append(ls, l)
	}
	sort.Slice(ls, func(a, b int) bool { return ls[a] < ls[b] })
	return ls
}

func tableKeys(st version.StringTable) []string {
	var ks []string
	for k := range st {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (w *verWorld) bytes(i int) []byte {
	var a, b []byte
	if !w.do("bytes", func() { a = w.vi[i].Bytes(); b = w.vi[i].Bytes() }) {
		return nil
	}
	w.s.add(Ev{"op": "bytes", "i": i, "b": ints(a), "again": bytes.Equal(a, b), "after": projectInfo(w.vi[i])})
	return a
}

func (w *verWorld) fromBytes(b []byte) (vi *version.Info, err error, ok bool) {
	ok = w.do("parse", func() { vi, err = version.FromBytes(b) })
	if vi == nil {
		vi = &version.Info{}
	}
	return
}

func (w *verWorld) parse(i int, b []byte) {
	vi, err, ok := w.fromBytes(b)
	if !ok {
		return
	}
	w.vi[i] = vi
	w.s.add(Ev{"op": "parse", "i": i, "b": ints(b), "err": err != nil, "after": projectInfo(vi)})
}

func (w *verWorld) roundTrip(from, i int, b []byte) {
	if b == nil {
		return
	}
	vi, err, ok := w.fromBytes(b)
	if !ok {
		return
	}
	w.vi[i] = vi
	w.s.add(Ev{"op": "roundtrip", "i": i, "from": from, "err": err != nil, "after": projectInfo(vi)})
}

// look records what an info says now.
func (w *verWorld) look(i int) {
	w.s.add(Ev{"op": "look", "i": i, "after": projectInfo(w.vi[i])})
}

// split puts results in slots to + language.
func (w *verWorld) split(i, to int) map[uint16]*version.Info {
	var m map[uint16]*version.Info
	if !w.do("split", func() { m = w.vi[i].SplitTranslations() }) {
		return nil
	}
	out := []interface{}{}
	for _, l := range infoLangs(m) {
		w.vi[to+int(l)] = m[l]
		out = append(out, []interface{}{int(l), projectInfo(m[l])})
	}
	w.s.add(Ev{"op": "split", "i": i, "to": to, "out": out, "after": projectInfo(w.vi[i])})
	return m
}

func infoLangs(m map[uint16]*version.Info) []uint16 {
	var ls []uint16
	for l := range m {
		ls = append(ls, l)
	}
	sort.Slice(ls, func(a, b int) bool { return ls[a] < ls[b] })
	return ls
}

func (w *verWorld) merge(i int, slots map[uint16]int) {
	m := map[uint16]*version.Info{}
	for l, s := range slots {
		m[l] = w.vi[s]
	}
	var vi *version.Info
	if !w.do("merge", func() { vi = version.MergeTranslations(m) }) {
		return
	}
	w.vi[i] = vi
	in, still := []interface{}{}, []interface{}{}
	for _, l := range infoLangs(m) {
		in = append(in, []int{int(l), slots[l]})
		still = append(still, projectInfo(m[l]))
	}
	w.s.add(Ev{"op": "merge", "i": i, "in": in, "still": still, "after": projectInfo(vi)})
}

func (w *verWorld) main(i int) {
	var st version.StringTable
	if !w.do("main", func() { st = w.vi[i].Table().GetMainTranslation() }) {
		return
	}
	w.s.add(Ev{"op": "main", "i": i, "out": strPairs(st)})
}

// json marshals an info and decodes the text over another one.
func (w *verWorld) json(from, i int) {
	var (
		a, b       []byte
		merr, uerr error
	)
	vi := w.vi[i]
	if vi == nil {
		vi = &version.Info{}
	}
	if !w.do("json", func() {
		a, merr = json.Marshal(w.vi[from])
		b, _ = json.Marshal(w.vi[from])
		if merr == nil {
			uerr = json.Unmarshal(a, vi)
		}
	}) {
		return
	}
	w.vi[i] = vi
	w.s.add(Ev{"op": "json", "from": from, "i": i, "merr": merr != nil, "uerr": uerr != nil, "again": bytes.Equal(a, b),
		"still": projectInfo(w.vi[from]), "after": projectInfo(vi)})
}

// --- generators -------------------------------------------------------------

var verKeys = []string{version.Comments, version.CompanyName, version.FileDescription, version.FileVersion, version.InternalName,
	version.LegalCopyright, version.OriginalFilename, version.ProductName, version.ProductVersion, version.SpecialBuild,
	"a", "A", "ab", "abc", "abcd", "é", "\U0001F600", "日本", "k k", "VarFileInfo", "Translation", "StringFileInfo", "040904B0", "\uFFFD", "\U0010FFFF"}
var verVals = []string{"", "a", "ab", "abc", "abcd", "1.2.3.4", "© Ünïcode", "\U0001F600", "日本語", " lead", "trail ", "\t", "line\r\nline", "\"quotes\" & <tags>",
	"\\backslash", "\u2028", "\u0001", "x\ufeff", "\U0010FFFF", "\uE000", "null", "{}"}
var verLangs = []uint16{0, 0x409, 0x409, 7, 0x40C, 0xFFFF, 1, 0x8000, 0x1009, 2}

func randVerKey(g *rand.Rand) string {
	if g.Intn(6) == 0 {
		return strings.Repeat("k", 1+g.Intn(40))
	}
	return verKeys[g.Intn(len(verKeys))]
}

func randVerVal(g *rand.Rand) string {
	switch g.Intn(6) {
	case 0:
		return strings.Repeat("v", g.Intn(60))
	case 1:
		return string(randName(g))
	}
	return verVals[g.Intn(len(verVals))]
}

func randVer(g *rand.Rand) (v [4]uint16) {
	for i := range v {
		v[i] = []uint16{0, 1, 2, 10, 255, 256, 0x7FFF, 0x8000, 0xFFFF, uint16(g.Intn(0x10000))}[g.Intn(10)]
	}
	if g.Intn(3) == 0 {
		p := g.Intn(16)
		for i := range v {
			if p>>uint(i)&1 == 0 {
				v[i] = 0
			} else if v[i] == 0 {
				v[i] = 1
			}
		}
	}
	return
}

// patterns calls f with versions where every set of the four numbers is zero in turn.
func patterns(f func(n int, v [4]uint16)) {
	for p := 0; p < 16; p++ {
		var v [4]uint16
		for i := range v {
			v[i] = uint16(p>>uint(i)&1) * uint16(1+i*p)
		}
		f(p, v)
	}
}

// wordTime makes a date between 1678 and 2262 with a given low word.
func wordTime(g *rand.Rand, low uint32) time.Time {
	hi := uint64(dates1678>>32) + 1 + uint64(g.Int63n(dates2262>>32-dates1678>>32-1))
	n := int64(hi<<32|uint64(low)) - dates1970
	return time.Unix(n/1e7, n%1e7*100)
}

// Units of 100 ns between 1601 and some dates
const (
	dates1678 = 0x5653EF79A10000
	dates1970 = 0x019DB1DED53E8000
	dates2262 = 0x2E510975B45C000
)

// randTime makes dates that the binary form can store, or any that JSON can.
func randTime(g *rand.Rand, binary bool) time.Time {
	switch g.Intn(10) {
	case 0, 1:
		return time.Time{}
	case 8: // the low word is zero, or nearly
		return wordTime(g, uint32(g.Intn(3)-1))
	case 2:
		return time.Unix(int64(g.Intn(1<<31)), int64(g.Intn(1e9)))
	case 3:
		return time.Date(1678+g.Intn(584), time.Month(1+g.Intn(12)), 1+g.Intn(28), g.Intn(24), g.Intn(60), g.Intn(60), g.Intn(1e9), time.FixedZone("", 60*(g.Intn(1400)-700)))
	case 4:
		return time.Unix(0, 0)
	case 5:
		return time.Unix(-int64(g.Intn(1<<31)), int64(g.Intn(1e7)*100)).UTC()
	case 6:
		return time.Unix(0, -1-int64(g.Intn(300))).UTC()
	case 7:
		if !binary {
			return time.Date(1+g.Intn(9999), time.Month(1+g.Intn(12)), 1+g.Intn(28), g.Intn(24), g.Intn(60), g.Intn(60), g.Intn(2)*999999999, time.UTC)
		}
		return time.Date(2262, 1, 1, 0, 0, 0, 99, time.UTC)
	default:
		return time.Date(2000+g.Intn(50), 1, 1, 0, 0, 0, g.Intn(1000), time.UTC)
	}
}

func setFields(g *rand.Rand, vi *version.Info, binary bool) {
	vi.FileVersion = randVer(g)
	vi.ProductVersion = randVer(g)
	n := g.Intn(32)
	vi.Flags.Debug = n&1 != 0
	vi.Flags.Prerelease = n&2 != 0
	vi.Flags.Patched = n&4 != 0
	vi.Flags.PrivateBuild = n&8 != 0
	vi.Flags.SpecialBuild = n&16 != 0
	switch g.Intn(3) {
	case 0:
		vi.Type = version.App
	case 1:
		vi.Type = version.DLL
	default:
		vi.Type = version.Unknown
	}
	vi.Timestamp = randTime(g, binary)
}

// fill adds strings in n languages
func fillInfo(g *rand.Rand, vi *version.Info, n int) {
	for ; n > 0; n-- {
		l := verLangs[g.Intn(len(verLangs))]
		if g.Intn(8) == 0 {
			l = uint16(g.Intn(0x10000))
		}
		for k := 1 + g.Intn(5); k > 0; k-- {
			vi.Set(l, randVerKey(g), randVerVal(g))
		}
	}
}

func randInfo(g *rand.Rand, binary bool) *version.Info {
	vi := &version.Info{}
	setFields(g, vi, binary)
	fillInfo(g, vi, g.Intn(5))
	return vi
}

var verTexts = []string{"", "1", "1.2", "1.2.3", "1.2.3.4", "1.2.3.4.5", "v1.2.3", "version 10.20.30.40-beta", "65535.65535.65535.65535", "0.0.0.0", "01.002.0003.00004",
	"none", "1.2.3.4 (build 5)", "a1b2", "1.2a.3", "1.2,3.4", "release-2021.01.02", "12", " 3.4", "7.8 ", "é5.6", "5é.6", "1.2.3.4a", "x.y", "2.0.0-rc.1", "...3.2", "10.", "-1.2", "0065535.1"}

type verCase struct {
	Lt [][]json.RawMessage `json:"lt"`
	Tr [][]json.RawMessage `json:"tr"`
}

func genVersion(r *run) {
	r.readCases(func(n int, raw json.RawMessage) {
		var c verCase
		if err := json.Unmarshal(raw, &c); err != nil {
			panic(err)
		}
		g := rand.New(rand.NewSource(int64(n)))
		s := r.begin("merge-%d", n)
		w := newVerWorld(r, s)
		if len(c.Tr) == 0 {
			w.made(1, &version.Info{})
			setFields(g, w.vi[1], true)
			w.made(1, w.vi[1])
			for _, x := range c.Lt {
				var (
					l  int
					kv [][]json.RawMessage
				)
				json.Unmarshal(x[0], &l)
				json.Unmarshal(x[1], &kv)
				for _, y := range kv {
					var k string
					json.Unmarshal(y[0], &k)
					w.set(1, uint16(l), k, string(y[1])+fmt.Sprint(l))
				}
			}
			w.main(1)
			m := w.split(1, 100)
			slots := map[uint16]int{}
			for l := range m {
				slots[l] = 100 + int(l)
			}
			w.merge(2, slots)
		} else {
			slots := map[uint16]int{}
			for i, x := range c.Tr {
				var (
					l  int
					ls []int
				)
				json.Unmarshal(x[0], &l)
				json.Unmarshal(x[1], &ls)
				vi := &version.Info{}
				if n%3 == 0 { // tables that are there, but empty
					json.Unmarshal([]byte(`{"info":{"0000":{},"0007":{},"0409":{}}}`), vi)
				}
				setFields(g, vi, true)
				for _, y := range ls {
					vi.Set(uint16(y), "k", fmt.Sprintf("%d from %d", y, l))
				}
				w.made(10+i, vi)
				slots[uint16(l)] = 10 + i
			}
			w.merge(1, slots)
		}
		r.end(s)
	})

	// Every text of at most four characters among a few, as a version
	const letters = "05.-é"
	for _, first := range letters {
		s := r.begin("text-%c", first)
		w := newVerWorld(r, s)
		w.made(1, &version.Info{})
		w.set(1, 0x409, "k", "v")
		var each func(t string, n int)
		each = func(t string, n int) {
			w.setVersion(1, len(t)%2 == 0, t)
			if n > 1 {
				for _, c := range letters {
					each(t+string(c), n-1)
				}
			}
		}
		each(string(first), r.pick(4, 5))
		r.end(s)
	}
	for n := r.pick(600, 5000); n > 0; n-- {
		g := rand.New(rand.NewSource(r.rng.Int63()))
		s := r.begin("version-%d", n)
		w := newVerWorld(r, s)
		w.made(1, randInfo(g, true))
		w.made(2, &version.Info{})
		w.made(3, randInfo(g, true))
		for ops := 4 + g.Intn(10); ops > 0; ops-- {
			i := 1 + g.Intn(3)
			switch g.Intn(12) {
			case 0, 1, 2, 3:
				k, v := randVerKey(g), randVerVal(g)
				switch g.Intn(12) {
				case 0:
					k = []string{"", "\x00", "a\x00", "\x00a", "a\x00b"}[g.Intn(5)]
				case 1:
					v = []string{"\x00", "a\x00", "\x00a", "a\x00b"}[g.Intn(4)]
				}
				w.set(i, verLangs[g.Intn(len(verLangs))], k, v)
			case 4, 5:
				w.setVersion(i, g.Intn(2) == 0, verTexts[g.Intn(len(verTexts))])
			case 6:
				if g.Intn(3) == 0 { // languages without strings
					if !w.do("unjson", func() { json.Unmarshal([]byte(`{"info":{"0000":{},"0007":{},"0409":{}}}`), w.vi[i]) }) {
						break
					}
					w.made(i, w.vi[i])
				}
				w.table(g, i)
			case 7:
				setFields(g, w.vi[i], true)
				w.made(i, w.vi[i])
			case 8, 9:
				m := w.split(i, 100)
				slots := map[uint16]int{}
				for _, l := range infoLangs(m) {
					slots[l] = 100 + int(l)
					if g.Intn(4) == 0 { // results are independent
						w.set(100+int(l), l, "later", "x")
						w.setVersion(100+int(l), true, "9.9")
					}
				}
				w.look(i)
				if g.Intn(3) > 0 {
					w.merge(4, slots)
					w.set(4, 0, "after merge", "y")
					for _, l := range infoLangs(m) {
						w.set(4, l, "k", "z")
						w.look(slots[l])
					}
				}
				if ls := infoLangs(m); len(ls) > 0 && g.Intn(3) == 0 {
					l := ls[g.Intn(len(ls))]
					w.set(i, l, "afterwards", "z")
					w.look(slots[l])
				}
			case 10:
				slots := map[uint16]int{}
				for k := 1 + g.Intn(3); k > 0; k-- {
					slots[verLangs[g.Intn(len(verLangs))]] = 1 + g.Intn(3)
				}
				w.merge(4, slots)
				if g.Intn(2) == 0 {
					w.set(4, verLangs[g.Intn(len(verLangs))], "after merge", "y")
					for k := 1; k <= 3; k++ {
						w.look(k)
					}
				}
			case 11:
				w.main(i)
			}
		}
		r.end(s)
	}
}

func genVerBin(r *run) {
	// Blocks laid out in every way
	const batch = 40
	var (
		s *Session
		w *verWorld
	)
	r.readCases(func(n int, raw json.RawMessage) {
		var c struct{ B []int }
		if err := json.Unmarshal(raw, &c); err != nil {
			panic(err)
		}
		if n%batch == 0 {
			if s != nil {
				r.end(s)
			}
			s = r.begin("codec-%d", n/batch)
			w = newVerWorld(r, s)
		}
		b := make([]byte, len(c.B))
		for i := range b {
			b[i] = byte(c.B[i])
		}
		w.parse(1, b)
		if n%5 == 0 && w.vi[1] != nil {
			w.roundTrip(1, 2, w.bytes(1))
		}
	})
	if s != nil {
		r.end(s)
	}
	patterns(func(n int, v [4]uint16) {
		s := r.begin("numbers-%d", n)
		w := newVerWorld(r, s)
		vi := &version.Info{}
		vi.FileVersion = v
		w.made(1, vi)
		w.roundTrip(1, 2, w.bytes(1))
		vi.FileVersion = [4]uint16{}
		vi.ProductVersion = v
		w.made(1, vi)
		w.roundTrip(1, 2, w.bytes(1))
		r.end(s)
	})
	for n := r.pick(600, 5000); n > 0; n-- {
		g := rand.New(rand.NewSource(r.rng.Int63()))
		s := r.begin("own-%d", n)
		w := newVerWorld(r, s)
		w.made(1, randInfo(g, true))
		w.roundTrip(1, 2, w.bytes(1))
		if w.vi[2] != nil {
			fillInfo(g, w.vi[2], 1+g.Intn(2))
			w.made(2, w.vi[2])
			w.roundTrip(2, 3, w.bytes(2))
		}
		r.end(s)
		s = r.begin("foreign-%d", n)
		w = newVerWorld(r, s)
		w.parse(1, foreignVersion(g))
		w.bytes(1)
		r.end(s)
	}
	// Lengths of keys and values
	for k := 1; k < 6; k++ {
		for v := 0; v < 6; v++ {
			g := rand.New(rand.NewSource(1))
			s := r.begin("length-%d-%d", k, v)
			w := newVerWorld(r, s)
			vi := &version.Info{}
			vi.Set(0x409, strings.Repeat("K", k), strings.Repeat("V", v))
			vi.Set(0x409, strings.Repeat("L", v+1), strings.Repeat("W", k))
			if g.Intn(2) == 0 {
				vi.Set(7, "z", "")
			}
			w.made(1, vi)
			w.roundTrip(1, 2, w.bytes(1))
			r.end(s)
		}
	}
	// Up to the limit of the format: 92+80+... bytes of overhead
	for i := 0; i < r.pick(3, 12); i++ {
		s := r.begin("large-%d", i)
		w := newVerWorld(r, s)
		vi := &version.Info{}
		// 40+52 VS_VERSIONINFO, 36 StringFileInfo, 24 table, 6+2*2 (key "k"), 68 VarFileInfo
		max := (65535 - 92 - 36 - 24 - 12 - 68 - 4) / 2
		switch i % 3 {
		case 0:
			vi.Set(0x409, "k", strings.Repeat("x", max-2-i))
		case 1:
			vi.Set(0x409, strings.Repeat("x", max-20-i), "v")
		case 2:
			for j := 0; j < 400; j++ {
				vi.Set(uint16(j*7), fmt.Sprint("key", j), strings.Repeat("y", 30))
			}
		}
		w.made(1, vi)
		w.roundTrip(1, 2, w.bytes(1))
		r.end(s)
	}
}

// foreignVersion makes a version block the way other tools do.
func foreignVersion(g *rand.Rand) []byte {
	padLen := g.Intn(4) == 0   // lengths include the padding that follows
	textZero := g.Intn(6) == 0 // kinds are not told
	align := func(b []byte) []byte {
		for len(b)%4 != 0 {
			b = append(b, 0)
		}
		return b
	}
	node := func(text int, key string, value []byte, vlen int, kids [][]byte) []byte {
		if textZero {
			text = 0
		}
		b := make([]byte, 6)
		binary.LittleEndian.PutUint16(b[2:], uint16(vlen))
		binary.LittleEndian.PutUint16(b[4:], uint16(text))
		for _, u := range utf16.Encode([]rune(key + "\x00")) {
			b = append(b, byte(u), byte(u>>8))
		}
		if len(value) > 0 || len(kids) > 0 {
			b = align(b)
		}
		b = append(b, value...)
		for _, k := range kids {
			b = append(align(b), k...)
		}
		if padLen {
			b = align(b)
		}
		binary.LittleEndian.PutUint16(b, uint16(len(b)))
		return b
	}
	str := func(k, v string) []byte {
		u := utf16.Encode([]rune(v))
		vlen := len(u)
		nuls := 1
		switch g.Intn(5) {
		case 0:
			nuls = 0
		case 1:
			nuls = 2 + g.Intn(3)
		}
		if g.Intn(8) > 0 || vlen == 0 { // else the length leaves the NUL out
			vlen += nuls
		}
		var b []byte
		for _, c := range u {
			b = append(b, byte(c), byte(c>>8))
		}
		b = append(b, make([]byte, 2*nuls)...)
		return node(1, k, b, vlen, nil)
	}
	var tables [][]byte
	langs := map[uint16]bool{}
	var list []byte
	for n := g.Intn(4); n > 0; n-- {
		l := verLangs[g.Intn(len(verLangs))]
		if langs[l] {
			continue
		}
		langs[l] = true
		list = append(list, byte(l), byte(l>>8), 0xB0, 4)
		var kids [][]byte
		has := map[string]bool{}
		for k := g.Intn(5); k > 0; k-- {
			key := randVerKey(g)
			if has[key] {
				continue
			}
			has[key] = true
			kids = append(kids, str(key, randVerVal(g)))
		}
		tables = append(tables, node(1, fmt.Sprintf([]string{"%04x04b0", "%04X04B0", "%04X04b0"}[g.Intn(3)], l), nil, 0, kids))
	}
	sfi := node(1, "StringFileInfo", nil, 0, tables)
	if g.Intn(5) == 0 {
		list = append(list, 9, 4, 0xE4, 4) // a translation without strings
	}
	vfi := node(1, "VarFileInfo", nil, 0, [][]byte{node(0, "Translation", list, len(list), nil)})
	var kids [][]byte
	switch g.Intn(6) {
	case 0:
		kids = [][]byte{vfi, sfi}
	case 1:
		kids = [][]byte{sfi}
	case 2:
		kids = [][]byte{sfi, vfi, node(1, "Unknown", []byte{1, 0, 2, 0}, 2, nil)}
	case 3:
		kids = [][]byte{vfi}
	default:
		kids = [][]byte{sfi, vfi}
	}
	var fixed []byte
	if g.Intn(6) > 0 {
		fixed = make([]byte, 52)
		g.Read(fixed)
		binary.LittleEndian.PutUint32(fixed, 0xFEEF04BD)
		binary.LittleEndian.PutUint32(fixed[4:], 0x10000)
		binary.LittleEndian.PutUint32(fixed[24:], []uint32{0x3F, 0x17}[g.Intn(2)])
		binary.LittleEndian.PutUint32(fixed[28:], uint32(g.Intn(64)))
		binary.LittleEndian.PutUint32(fixed[36:], []uint32{0, 1, 2, 3, 4, 7}[g.Intn(6)])
		d := uint64(0)
		if g.Intn(2) == 0 {
			d = uint64(time.Date(1678+g.Intn(584), 1, 1, 0, 0, 0, 0, time.UTC).Unix()-epoch1601.Unix())*10000000 + uint64(g.Intn(1<<30))
			if g.Intn(4) == 0 {
				d &= 0xFFFFFFFF << 32
			}
		}
		binary.LittleEndian.PutUint32(fixed[44:], uint32(d>>32))
		binary.LittleEndian.PutUint32(fixed[48:], uint32(d))
	}
	return node(0, "VS_VERSION_INFO", fixed, len(fixed), kids)
}

func randCase(g *rand.Rand, s string) string {
	switch g.Intn(4) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		b := []byte(s)
		for i := range b {
			if g.Intn(2) == 0 {
				b[i] = strings.ToUpper(string(b[i]))[0]
			}
		}
		return string(b)
	}
	return s
}

func (w *verWorld) unjson(g *rand.Rand, i int) {
	doc := Ev{"fv": []int{}, "pv": []int{}, "flags": []string{}, "type": "", "ts": []int{}, "lt": []interface{}{}}
	fixed := map[string]interface{}{}
	if g.Intn(6) > 0 {
		ver := func(name, k string) {
			if g.Intn(4) == 0 {
				return
			}
			v := randVer(g)
			doc[k] = []int{int(v[0]), int(v[1]), int(v[2]), int(v[3])}
			fixed[name] = fmt.Sprintf("%d.%d.%d.%d", v[0], v[1], v[2], v[3])
		}
		ver("file_version", "fv")
		ver("product_version", "pv")
		if g.Intn(4) > 0 {
			fl := []string{}
			for _, f := range []string{"debug", "prerelease", "patched", "privatebuild", "specialbuild"} {
				if g.Intn(2) == 0 {
					fl = append(fl, f)
				}
			}
			g.Shuffle(len(fl), func(a, b int) { fl[a], fl[b] = fl[b], fl[a] })
			doc["flags"] = append([]string{}, fl...)
			for j := range fl {
				fl[j] = randCase(g, fl[j])
			}
			fixed["flags"] = strings.Join(fl, []string{",", ", ", " "}[g.Intn(3)])
		}
		if g.Intn(4) > 0 {
			t := []string{"app", "dll", "unknown", "app", "dll", "unknown", "driver", "font", "application"}[g.Intn(9)]
			doc["type"] = t
			fixed["type"] = randCase(g, t)
		}
		if t := randTime(g, false); !t.IsZero() {
			doc["ts"], _, _ = projectTime(t)
			fixed["timestamp"] = t.Format(time.RFC3339Nano)
			if _, off := t.Zone(); off%60 != 0 {
				fixed["timestamp"] = t.UTC().Format(time.RFC3339Nano)
			}
		}
	}
	info := map[string]map[string]string{}
	lt := []interface{}{}
	seen := map[uint16]bool{}
	for n := g.Intn(4); n > 0; n-- {
		l := verLangs[g.Intn(len(verLangs))]
		if seen[l] {
			continue
		}
		seen[l] = true
		m := map[string]string{}
		for k := g.Intn(4); k > 0; k-- {
			m[randVerKey(g)] = randVerVal(g)
		}
		info[fmt.Sprintf([]string{"%04X", "%04x", "%X"}[g.Intn(3)], l)] = m
		lt = append(lt, []interface{}{int(l), strPairs(m)})
	}
	doc["lt"] = lt
	all := map[string]interface{}{}
	if len(fixed) > 0 || g.Intn(2) == 0 {
		all["fixed"] = fixed
	}
	if len(info) > 0 || g.Intn(2) == 0 {
		all["info"] = info
	}
	text, err := json.Marshal(all)
	if err != nil {
		panic(err)
	}
	vi := w.vi[i]
	if vi == nil {
		vi = &version.Info{}
	}
	if !w.do("unjson", func() { err = json.Unmarshal(text, vi) }) {
		return
	}
	w.vi[i] = vi
	w.s.add(Ev{"op": "unjson", "i": i, "doc": doc, "text": string(text), "err": err != nil, "after": projectInfo(vi)})
}

func genVerJSON(r *run) {
	patterns(func(n int, v [4]uint16) {
		g := rand.New(rand.NewSource(r.rng.Int63()))
		s := r.begin("numbers-%d", n)
		w := newVerWorld(r, s)
		vi := &version.Info{}
		vi.FileVersion = v
		w.made(1, vi)
		w.json(1, 2)
		vi = randInfo(g, false)
		vi.FileVersion = [4]uint16{}
		vi.ProductVersion = v
		w.made(3, vi)
		w.json(3, 1)
		vi.FileVersion = v
		w.made(3, vi)
		w.json(3, 2)
		r.end(s)
	})
	for n := r.pick(1000, 8000); n > 0; n-- {
		g := rand.New(rand.NewSource(r.rng.Int63()))
		s := r.begin("json-%d", n)
		w := newVerWorld(r, s)
		w.made(1, randInfo(g, false))
		w.made(2, randInfo(g, false))
		for k := 2 + g.Intn(4); k > 0; k-- {
			i, j := 1+g.Intn(3), 1+g.Intn(3)
			if w.vi[i] == nil {
				i = 1
			}
			switch g.Intn(4) {
			case 0, 1:
				if i == j {
					j = 1 + i%3
				}
				w.json(i, j)
			case 2:
				w.unjson(g, j)
			case 3:
				setFields(g, w.vi[i], false)
				fillInfo(g, w.vi[i], 1)
				w.made(i, w.vi[i])
			}
		}
		r.end(s)
	}
}
