package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"sort"
	"sync"
	"sync/atomic"
	"time"
	"unicode/utf16"

	"github.com/tc-hib/winres"
	"github.com/tc-hib/winres/version"
)

func init() {
	families["robust"] = genRobust
	families["hostile"] = genHostile
}

// held is what a path of operations has got so far.
type held struct {
	g    *rand.Rand
	b    map[string][]byte // bytes of each kind
	set  *winres.ResourceSet
	icon *winres.Icon
	cur  *winres.Cursor
	ver  *version.Info
	man  *winres.AppManifest
}

// capBuffer is a buffer that refuses to become huge: an output gone wild is an error, not the end of
// the driver.  After a few of those, it takes less to be wild.
type capBuffer struct {
	bytes.Buffer
	max int
}

var wild int32

func (c *capBuffer) Write(p []byte) (int, error) {
	max := c.max
	if max == 0 {
		max = 64 << 20
	}
	if atomic.LoadInt32(&wild) > 3 {
		max = 1 << 20
	}
	if c.Len()+len(p) > max {
		atomic.AddInt32(&wild, 1)
		return 0, errors.New("too much")
	}
	return c.Buffer.Write(p)
}

// capWriter refuses to get too much.
type capWriter struct {
	b   *bytes.Buffer
	max int
}

func (c capWriter) Write(p []byte) (int, error) {
	if c.b.Len()+len(p) > c.max {
		return 0, errors.New("too much")
	}
	return c.b.Write(p)
}

var robustExe = simplePE(rand.New(rand.NewSource(1)))

func (h *held) sink(kind string, f func(w io.Writer) error) error {
	b := &bytes.Buffer{}
	err := f(capWriter{b, 4 << 20})
	if err == nil && kind != "" {
		h.b[kind] = append([]byte{}, b.Bytes()...)
	}
	return err
}

func (h *held) keys() (all []key, groups map[winres.ID][]key) {
	groups = map[winres.ID][]key{}
	h.set.Walk(func(t, r winres.Identifier, l uint16, _ []byte) bool {
		all = append(all, key{t, r, l})
		if id, ok := t.(winres.ID); ok {
			groups[id] = append(groups[id], key{t, r, l})
		}
		return len(all) < 3000
	})
	return
}

func (h *held) source(b []byte) io.ReadSeeker {
	if h.g.Intn(4) == 0 {
		return onlyRS{bytes.NewReader(b)}
	}
	return bytes.NewReader(b)
}

// loaded tells whether a set is what can have been read from the executable: no resource is bigger than the file.
func (h *held) loaded(rs *winres.ResourceSet) bool {
	h.set = rs
	if rs == nil {
		return false
	}
	ok := true
	rs.Walk(func(_, _ winres.Identifier, _ uint16, data []byte) bool {
		ok = ok && len(data) <= len(h.b["exe"])
		return ok
	})
	if !ok {
		h.set = nil
	}
	return ok
}

var errNone = errors.New("nothing to do it on")

// apiOps does the operations of ApiGraph. They return whether they gave a value.
var apiOps = map[string]func(h *held) (val bool, err error){
	"LoadFromEXE": func(h *held) (bool, error) {
		rs, err := winres.LoadFromEXE(h.source(h.b["exe"]))
		return h.loaded(rs), err
	},
	"LoadFromEXESingleType": func(h *held) (bool, error) {
		t := []winres.Identifier{winres.RT_ICON, winres.RT_GROUP_ICON, winres.RT_GROUP_CURSOR, winres.RT_VERSION, winres.RT_MANIFEST, winres.Name("A"), winres.ID(10), winres.ID(0), nil}[h.g.Intn(9)]
		rs, err := winres.LoadFromEXESingleType(h.source(h.b["exe"]), t)
		return h.loaded(rs), err
	},
	"IsSignedEXE": func(h *held) (bool, error) {
		_, err := winres.IsSignedEXE(h.source(h.b["exe"]))
		return true, err
	},
	"WriteToEXE": func(h *held) (bool, error) {
		rs := h.set
		if rs == nil {
			rs = &winres.ResourceSet{}
			rs.Set(winres.ID(10), winres.Name("N"), 0, randBytes(h.g, h.g.Intn(3000)))
		}
		src := h.source(h.b["exe"])
		err := h.sink("exe", func(w io.Writer) error {
			switch h.g.Intn(4) {
			case 0:
				return rs.WriteToEXE(w, src)
			case 1:
				return rs.WriteToEXE(w, src, winres.WithAuthenticode(winres.RemoveSignature))
			case 2:
				return rs.WriteToEXE(w, src, winres.ForceCheckSum())
			}
			return rs.WriteToEXE(w, src, winres.WithAuthenticode(winres.IgnoreSignature))
		})
		return true, err
	},
	"LoadICO": func(h *held) (bool, error) {
		x, err := winres.LoadICO(h.source(h.b["ico"]))
		h.icon = x
		return x != nil, err
	},
	"LoadCUR": func(h *held) (bool, error) {
		x, err := winres.LoadCUR(h.source(h.b["cur"]))
		h.cur = x
		return x != nil, err
	},
	"FromBytes": func(h *held) (bool, error) {
		x, err := version.FromBytes(h.b["vb"])
		h.ver = x
		return x != nil, err
	},
	"UnmarshalVersion": func(h *held) (bool, error) {
		x := &version.Info{}
		var err error
		if h.g.Intn(3) == 0 {
			err = x.UnmarshalJSON(h.b["vj"])
		} else {
			err = json.Unmarshal(h.b["vj"], x)
		}
		h.ver = x
		return true, err
	},
	"AppManifestFromXML": func(h *held) (bool, error) {
		m, err := winres.AppManifestFromXML(h.b["mx"])
		h.man = &m
		return true, err
	},
	"UnmarshalManifest": func(h *held) (bool, error) {
		m := &winres.AppManifest{}
		h.man = m
		b := h.b["mj"]
		switch h.g.Intn(8) {
		case 0:
			return true, m.Compatibility.UnmarshalText(b)
		case 1:
			return true, m.DPIAwareness.UnmarshalText(b)
		case 2:
			return true, m.ExecutionLevel.UnmarshalText(b)
		case 3:
			return true, m.Identity.UnmarshalJSON(b)
		}
		return true, json.Unmarshal(b, m)
	},
	"Reset": func(h *held) (bool, error) {
		rs := &winres.ResourceSet{}
		d := h.b["grp"]
		for _, t := range []winres.ID{winres.RT_GROUP_ICON, winres.RT_GROUP_CURSOR, winres.RT_VERSION, winres.RT_MANIFEST} {
			rs.Set(t, winres.ID(1), 0x409, d)
			rs.Set(t, winres.Name("A"), 0, d)
		}
		for i := 1; i < 6; i++ {
			rs.Set(winres.RT_ICON, winres.ID(i), 0, randBytes(h.g, h.g.Intn(50)))
			rs.Set(winres.RT_CURSOR, winres.ID(i), 0x409, randBytes(h.g, h.g.Intn(i+2)))
		}
		h.set = rs
		return true, nil
	},
	"Count": func(h *held) (bool, error) { return h.set.Count() >= 0, nil },
	"Walk": func(h *held) (bool, error) {
		h.keys()
		return true, nil
	},
	"WalkType": func(h *held) (bool, error) {
		all, _ := h.keys()
		for _, k := range append(all, key{winres.Name("?"), nil, 0}) {
			n := 0
			h.set.WalkType(k.t, func(winres.Identifier, uint16, []byte) bool { n++; return n < 3 })
		}
		return true, nil
	},
	"Get": func(h *held) (bool, error) {
		all, _ := h.keys()
		for _, k := range all {
			h.set.Get(k.t, k.r, k.l)
			h.set.Get(k.r, k.t, k.l+1)
		}
		return true, nil
	},
	"Edit": func(h *held) (bool, error) {
		all, _ := h.keys()
		for i, k := range all {
			switch (i + h.g.Intn(2)) % 3 {
			case 0:
				h.set.Set(k.t, k.r, k.l, nil)
			case 1:
				h.set.Set(k.t, k.r, k.l, []byte("new"))
				h.set.Set(k.t, winres.Name("new"), k.l, []byte("new"))
			}
			if i > 20 {
				break
			}
		}
		return true, nil
	},
	"GetIcon": func(h *held) (bool, error) {
		_, groups := h.keys()
		err := errNone
		h.icon = nil
		for _, k := range groups[winres.RT_GROUP_ICON] {
			a, e1 := h.set.GetIcon(k.r)
			b, e2 := h.set.GetIconTranslation(k.r, k.l)
			if (a == nil) != (e1 != nil) || (b == nil) != (e2 != nil) {
				return false, nil
			}
			if e2 == nil && (h.icon == nil || h.g.Intn(2) == 0) {
				h.icon, err = b, nil
			}
		}
		return h.icon != nil, err
	},
	"GetCursor": func(h *held) (bool, error) {
		_, groups := h.keys()
		err := errNone
		h.cur = nil
		for _, k := range groups[winres.RT_GROUP_CURSOR] {
			a, e1 := h.set.GetCursor(k.r)
			b, e2 := h.set.GetCursorTranslation(k.r, k.l)
			if (a == nil) != (e1 != nil) || (b == nil) != (e2 != nil) {
				return false, nil
			}
			if e2 == nil && (h.cur == nil || h.g.Intn(2) == 0) {
				h.cur, err = b, nil
			}
		}
		return h.cur != nil, err
	},
	"ReadVersion": func(h *held) (bool, error) {
		_, groups := h.keys()
		for _, k := range groups[winres.RT_VERSION] {
			h.b["vb"] = h.set.Get(k.t, k.r, k.l)
			return h.b["vb"] != nil, nil
		}
		return false, errNone
	},
	"ReadManifest": func(h *held) (bool, error) {
		_, groups := h.keys()
		for _, k := range groups[winres.RT_MANIFEST] {
			h.b["mx"] = h.set.Get(k.t, k.r, k.l)
			return h.b["mx"] != nil, nil
		}
		return false, errNone
	},
	"WriteObject": func(h *held) (bool, error) {
		arch := []winres.Arch{winres.ArchAMD64, winres.ArchI386, winres.ArchARM, winres.ArchARM64}[h.g.Intn(4)]
		return true, h.sink("", func(w io.Writer) error { return h.set.WriteObject(w, arch) })
	},
	"Patch": func(h *held) (bool, error) {
		return true, h.sink("exe", func(w io.Writer) error { return h.set.WriteToEXE(w, bytes.NewReader(robustExe)) })
	},
	"SaveICO": func(h *held) (bool, error) {
		return true, h.sink("ico", func(w io.Writer) error { return h.icon.SaveICO(w) })
	},
	"SaveCUR": func(h *held) (bool, error) {
		return true, h.sink("cur", func(w io.Writer) error { return h.cur.SaveCUR(w) })
	},
	"SetIcon": func(h *held) (bool, error) {
		if h.set == nil {
			h.set = &winres.ResourceSet{}
		}
		if h.g.Intn(2) == 0 {
			return true, h.set.SetIcon(winres.Name("A"), h.icon)
		}
		return true, h.set.SetIconTranslation(winres.ID(1), 0x409, h.icon)
	},
	"SetCursor": func(h *held) (bool, error) {
		if h.set == nil {
			h.set = &winres.ResourceSet{}
		}
		if h.g.Intn(2) == 0 {
			return true, h.set.SetCursor(winres.Name("A"), h.cur)
		}
		return true, h.set.SetCursorTranslation(winres.ID(1), 0x409, h.cur)
	},
	"Bytes": func(h *held) (bool, error) {
		h.b["vb"] = h.ver.Bytes()
		return h.b["vb"] != nil, nil
	},
	"MarshalVersion": func(h *held) (bool, error) {
		b, err := json.Marshal(h.ver)
		h.b["vj"] = b
		return b != nil, err
	},
	"Table": func(h *held) (bool, error) {
		t := h.ver.Table()
		t.GetMainTranslation()
		return true, nil
	},
	"Split": func(h *held) (bool, error) {
		m := h.ver.SplitTranslations()
		for _, l := range infoLangs(m) {
			h.ver = m[l]
		}
		return h.ver != nil, nil
	},
	"Merge": func(h *held) (bool, error) {
		h.ver = version.MergeTranslations(map[uint16]*version.Info{0x409: h.ver, 0x40C: {}, 0: h.ver})
		return h.ver != nil, nil
	},
	"SetString": func(h *held) (bool, error) {
		err := h.ver.Set(0x409, "Key", "value")
		for _, l := range []uint16{0, 0x40C} {
			h.ver.Set(l, version.ProductName, "")
		}
		return true, err
	},
	"SetVersions": func(h *held) (bool, error) {
		h.ver.SetFileVersion("1.2.3.4")
		h.ver.SetProductVersion("v1")
		return true, nil
	},
	"SetVersionInfo": func(h *held) (bool, error) {
		if h.set == nil {
			h.set = &winres.ResourceSet{}
		}
		h.set.SetVersionInfo(*h.ver)
		return true, nil
	},
	"MarshalManifest": func(h *held) (bool, error) {
		b, err := json.Marshal(h.man)
		h.b["mj"] = b
		return b != nil, err
	},
	"SetManifest": func(h *held) (bool, error) {
		if h.set == nil {
			h.set = &winres.ResourceSet{}
		}
		h.set.SetManifest(*h.man)
		return true, nil
	},
}

type apiPath struct {
	Start string   `json:"start"`
	Path  []string `json:"path"`
}

type apiRow struct {
	fn       string
	err, val bool
}

// crash is what a path that did not come back left.
type crash struct {
	in, kind, msg, how, input string
	path                      []string
}

// hostile does paths on inputs, with all processors. make gives input number i and tells how it was made.
func (r *run) hostile(s *Session, start string, n int, how string, paths func(g *rand.Rand) [][]string, make_ func(i int, g *rand.Rand) ([]byte, string)) {
	t0 := time.Now()
	seed := r.rng.Int63()
	const workers = 8
	type work struct {
		since int64
		i     int64
		step  atomic.Value
	}
	var (
		next   int64 = -1
		done   sync.WaitGroup
		ws     [workers]work
		rows   [workers]map[apiRow]int
		broken atomic.Value
		odd    atomic.Value // an input that gave neither a value nor an error
		stop   int32
	)
	one := func(w int, i int) (c *crash) {
		g := rand.New(rand.NewSource(seed + int64(i)*7919))
		in, desc := make_(i, g)
		if in == nil {
			return nil
		}
		var (
			op   string
			path []string
		)
		defer func() {
			if x := recover(); x != nil {
				h := hex.EncodeToString(in)
				if len(h) > 20000 {
					h = h[:20000]
				}
				c = &crash{in: op, kind: "panic", msg: fmt.Sprint(x), how: desc, input: h, path: path}
			}
		}()
		for _, path = range paths(g) {
			h := &held{g: g, b: map[string][]byte{start: append([]byte{}, in...)}}
			for _, op = range path {
				ws[w].step.Store(op)
				val, err := apiOps[op](h)
				if err == nil && !val {
					odd.Store(Ev{"in": op, "how": desc, "input": hex.EncodeToString(in), "path": path})
				}
				if err != errNone {
					rows[w][apiRow{op, err != nil, val}]++
				}
				if err != nil || !val {
					break
				}
			}
		}
		return nil
	}
	for w := 0; w < workers; w++ {
		rows[w] = map[apiRow]int{}
		done.Add(1)
		go func(w int) {
			defer done.Done()
			for {
				i := atomic.AddInt64(&next, 1)
				if i >= int64(n) || atomic.LoadInt32(&stop) != 0 || late() {
					return
				}
				atomic.StoreInt64(&ws[w].i, i)
				atomic.StoreInt64(&ws[w].since, time.Now().UnixNano())
				if c := one(w, int(i)); c != nil {
					broken.Store(c)
					atomic.StoreInt32(&stop, 1)
				}
				atomic.StoreInt64(&ws[w].since, 0)
			}
		}(w)
	}
	fin := make(chan bool)
	go func() { done.Wait(); close(fin) }()
	tick := time.NewTicker(200 * time.Millisecond)
	defer tick.Stop()
wait:
	for {
		select {
		case <-fin:
			break wait
		case <-tick.C:
			for w := range ws {
				if t := atomic.LoadInt64(&ws[w].since); t != 0 && time.Since(time.Unix(0, t)) > opTimeout {
					i := int(atomic.LoadInt64(&ws[w].i))
					in, desc := make_(i, rand.New(rand.NewSource(seed+int64(i)*7919)))
					s.add(Ev{"op": "crash", "in": fmt.Sprint(ws[w].step.Load()), "kind": "hang", "msg": "no answer within " + opTimeout.String(), "how": desc, "input": hex.EncodeToString(in)})
					r.end(s)
					panic(errHang)
				}
			}
		}
	}
	if c, ok := broken.Load().(*crash); ok {
		s.add(Ev{"op": "crash", "in": c.in, "kind": c.kind, "msg": c.msg, "how": c.how, "path": c.path, "input": c.input})
	}
	sum := map[apiRow]int{}
	for _, m := range rows {
		for k, v := range m {
			sum[k] += v
		}
	}
	list := []Ev{}
	for k, v := range sum {
		list = append(list, Ev{"fn": k.fn, "err": k.err, "val": k.val, "n": v})
	}
	sort.Slice(list, func(i, j int) bool { return fmt.Sprint(list[i]) < fmt.Sprint(list[j]) })
	if os.Getenv("VERIF_TIMES") != "" {
		fmt.Fprintln(os.Stderr, s.ID, how, n, time.Since(t0))
	}
	if o, ok := odd.Load().(Ev); ok && s.Aux == nil {
		s.Aux = o
	}
	s.add(Ev{"op": "batch", "in": start, "how": how, "n": n, "rows": list})
}

// baseInput makes a valid input of a kind, that isn't big.
func baseInput(g *rand.Rand, kind string) []byte {
	for {
		if b := anyInput(g, kind); len(b) < 8000 {
			return b
		}
	}
}

func anyInput(g *rand.Rand, kind string) []byte {
	switch kind {
	case "exe":
		var lv []leaf
		for i := 1; i < 4; i++ {
			lv = append(lv, leaf{key{winres.RT_ICON, winres.ID(i), 0}, randBytes(g, 9+g.Intn(20))})
			lv = append(lv, leaf{key{winres.RT_CURSOR, winres.ID(i), 0}, dib(g, 32, 24)})
		}
		lv = append(lv, leaf{key{winres.RT_GROUP_ICON, winres.Name("A"), 0x409}, groupData(g, 1, []int{1, 2})})
		lv = append(lv, leaf{key{winres.RT_GROUP_CURSOR, winres.ID(1), 0}, groupData(g, 2, []int{2, 3})})
		if g.Intn(2) == 0 {
			lv = append(lv, leaf{key{winres.RT_VERSION, winres.ID(1), 0x409}, foreignVersion(g)})
		}
		if g.Intn(3) == 0 {
			lv = append(lv, leaf{key{winres.RT_MANIFEST, winres.ID(1), 0x409}, []byte(`<assembly manifestVersion="1.0" xmlns="urn:schemas-microsoft-com:asm.v1"/>`)})
		}
		lv = append(lv, leaf{key{winres.Name("T\U0001F600"), winres.Name("R"), 7}, randBytes(g, g.Intn(9))})
		c := peCfg{PE64: g.Intn(2) == 0, Lfanew: 0x40, Dirs: 16, FA: 0x200, SA: 0x1000, Room: 40 * g.Intn(2), Sum: g.Intn(2) == 0,
			Secs: []secCfg{{Kind: "code", Raw: 1}, {Kind: "rsrc", Order: 1}}}
		switch g.Intn(4) {
		case 0:
			c.Secs = append(c.Secs, secCfg{Kind: "reloc", Raw: 1, Order: 2})
		case 1:
			c.Secs = append(c.Secs, secCfg{Kind: "data", Raw: 1, Order: 2})
			c.Cert = 40
		case 2:
			c.Secs = []secCfg{{Kind: "rsrc"}, {Kind: "bss"}, {Kind: "reloc", Raw: 1, Order: 1}}
			c.Overlay = 9
			c.Sym = "overlay"
		}
		switch g.Intn(6) {
		case 0:
			c.Dirs = g.Intn(20)
		case 1:
			c = randCfg(g)
		}
		return c.build(g, foreignDir(g, lv, g.Intn(4)))
	case "ico":
		return icoFile(g, 1, 1+g.Intn(3))
	case "cur":
		for {
			b := icoFile(g, 2, 1+g.Intn(3))
			if _, err := winres.LoadCUR(bytes.NewReader(b)); err == nil || g.Intn(20) == 0 {
				return b
			}
		}
	case "grp":
		return groupData(g, 1+g.Intn(2), []int{1, 2, 3}[:1+g.Intn(3)])
	case "vb":
		if g.Intn(3) == 0 {
			return randInfo(g, true).Bytes()
		}
		return foreignVersion(g)
	case "vj":
		b, err := json.Marshal(randInfo(g, false))
		if err != nil || g.Intn(3) == 0 {
			return []byte(`{"fixed":{"file_version":"1.2.3.4","product_version":"v5.6","flags":"Debug,Patched","type":"DLL","timestamp":"2020-01-02T03:04:05Z"},"info":{"0409":{"A":"b","ProductName":"x"},"040c":{}}}`)
		}
		return b
	case "mx":
		if g.Intn(3) == 0 {
			return manifestOf(randManifest(g))
		}
		return foreignManifest(g)
	case "mj":
		b, err := json.Marshal(randManifest(g))
		if err != nil {
			return []byte(`{}`)
		}
		return b
	}
	panic(kind)
}

var hostileWords = []uint64{0, 1, 2, 3, 4, 6, 7, 8, 0x10, 0x28, 0x7F, 0x80, 0xFF, 0x100, 0x200, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF, 0x10000, 0x7FFFFFFF, 0x80000000, 0x80000001, 0xFFFFFFF0, 0xFFFFFFFE, 0xFFFFFFFF}

// hostileText replaces parts of JSON and XML texts.
var hostileText = []string{
	"", "\"", "{", "}", "[", "]", "null", "0", "-1", "1e999", "true", "[]", "{}", "\\u0000", "\\ud800", "\x00", "\xFF", "<", ">", "&", "&#0;", "&#x110000;", "&amp", "<!--", "-->", "<![CDATA[", "]]>", "<?", "?>",
	"xmlns=\"\"", "'", "=", ":", "65536", "99999999999999999999", "-", "1.2", "..", "1.2.3.4.5", "v", "\u0130", "0409", "FFFFF", " ", "\n", "\uFEFF", "\u202E", "/", "/>", "</", "<!DOCTYPE a [<!ENTITY e \"x\">]>",
	"0000-00-00T00:00:00Z", "10000-01-01T00:00:00Z", "true/pm", "permonitorv2", "{e2011457-1546-43c5-a5fe-008deee3d3f0}",
}

// mutate is the i-th mutation of a class.
func mutate(g *rand.Rand, base []byte, text bool, other func() []byte) ([]byte, string) {
	b := append([]byte{}, base...)
	desc := ""
	for k := 1 + g.Intn(3)*g.Intn(2); k > 0; k-- {
		at := 0
		if len(b) > 0 {
			at = g.Intn(len(b))
		}
		what := g.Intn(8)
		if text && g.Intn(2) == 0 {
			what = 8
		}
		switch what {
		case 0:
			if len(b) > 0 {
				b[at] ^= 1 << uint(g.Intn(8))
			}
		case 1, 2:
			w := []int{1, 2, 4}[g.Intn(3)]
			at -= at % w
			v := hostileWords[g.Intn(len(hostileWords))]
			if g.Intn(3) == 0 {
				v = uint64(len(b) + g.Intn(5) - 2)
			}
			if g.Intn(4) == 0 && at+4 <= len(b) {
				v = uint64(binary.LittleEndian.Uint32(b[at:])) + uint64(g.Intn(9)) - 4
			}
			putN(b, at, w, v)
		case 3:
			b = b[:at]
		case 4:
			n := 1 + g.Intn(20)
			if at+n > len(b) {
				n = len(b) - at
			}
			b = append(b[:at:at], b[at+n:]...)
		case 5:
			b = append(append(append([]byte{}, b[:at]...), randBytes(g, 1+g.Intn(20))...), b[at:]...)
		case 6:
			o := other()
			if len(o) > 0 {
				x := g.Intn(len(o))
				b = append(append([]byte{}, b[:at]...), o[x:]...)
			}
		case 7:
			n := g.Intn(40)
			for j := at; j < at+n && j < len(b); j++ {
				b[j] = byte(g.Intn(256))
			}
		case 8:
			n := g.Intn(4)
			if g.Intn(3) == 0 {
				n = g.Intn(20)
			}
			if at+n > len(b) {
				n = len(b) - at
			}
			t := hostileText[g.Intn(len(hostileText))]
			b = append(append(append([]byte{}, b[:at]...), t...), b[at+n:]...)
		}
		desc += fmt.Sprint(what, "@", at, " ")
	}
	return b, desc
}

func putN(b []byte, at, w int, v uint64) {
	for j := 0; j < w && at+j < len(b); j++ {
		b[at+j] = byte(v >> (8 * uint(j)))
	}
}

var robustKinds = []string{"exe", "ico", "cur", "grp", "vb", "vj", "mx", "mj"}

func genRobust(r *run) {
	byStart := map[string][][]string{}
	r.readCases(func(i int, raw json.RawMessage) {
		var p apiPath
		if err := json.Unmarshal(raw, &p); err != nil {
			panic(err)
		}
		byStart[p.Start] = append(byStart[p.Start], p.Path)
	})
	g := r.rng
	for _, kind := range robustKinds {
		kind := kind
		all := byStart[kind]
		some := func(n int) func(g *rand.Rand) [][]string {
			return func(g *rand.Rand) [][]string {
				if n >= len(all) {
					return all
				}
				var out [][]string
				for i := 0; i < n; i++ {
					out = append(out, all[g.Intn(len(all))])
				}
				return out
			}
		}
		text := kind == "vj" || kind == "mx" || kind == "mj"
		// valid inputs, with every path
		s := r.begin("valid-%s", kind)
		r.hostile(s, kind, r.pick(24, 200), "valid", some(1<<30), func(i int, g *rand.Rand) ([]byte, string) { return baseInput(g, kind), "" })
		r.end(s)
		if kind == "exe" { // every number of directories
			s := r.begin("dirs-%s", kind)
			r.hostile(s, kind, 4*20, "directories", some(1<<30), func(i int, g *rand.Rand) ([]byte, string) {
				c := peCfg{PE64: i%2 == 0, Lfanew: 0x40, Dirs: i / 4, FA: 0x200, SA: 0x1000, Room: 40,
					Secs: []secCfg{{Kind: "code", Raw: 1}, {Kind: "rsrc", Order: 1}, {Kind: "reloc", Raw: 1, Order: 2}}}
				if i%4 >= 2 {
					c.Secs = c.Secs[:1]
				}
				return c.build(g, foreignDir(g, []leaf{{key{winres.RT_ICON, winres.ID(1), 0}, dib(g, 32, 24)}}, 0)), fmt.Sprint(i/4, " directories")
			})
			r.end(s)
		}
		for n := r.pick(5, 40); n > 0; n-- {
			base := baseInput(g, kind)
			s := r.begin("%s-%d", kind, n)
			// every truncation
			r.hostile(s, kind, len(base), "truncated", some(2), func(i int, _ *rand.Rand) ([]byte, string) { return base[:i], fmt.Sprint("cut at ", i) })
			if len(s.Ev) > 0 && s.Ev[len(s.Ev)-1]["op"] == "crash" {
				r.end(s)
				continue
			}
			// every field, with boundary values
			if !text {
				pos := []int{}
				for i := 0; i < len(base); i++ {
					if base[i] != 0 || i%2 == 0 && (i < 2 || base[i-1] != 0 || base[i-2] != 0 || i+1 < len(base) && base[i+1] != 0) {
						pos = append(pos, i)
					}
				}
				nw := len(hostileWords)
				r.hostile(s, kind, len(pos)*nw, "boundary", some(1), func(i int, g *rand.Rand) ([]byte, string) {
					at, v := pos[i/nw], hostileWords[i%nw]
					w := 4
					switch {
					case at%2 == 1:
						w = 1
					case at%4 == 2 || g.Intn(2) == 0:
						w = 2
					}
					b := append([]byte{}, base...)
					putN(b, at, w, v)
					return b, fmt.Sprintf("%d bytes at %d: %#x", w, at, v)
				})
			}
			r.hostile(s, kind, r.pick(8000, 60000), "havoc", some(1), func(i int, g *rand.Rand) ([]byte, string) {
				return mutate(g, base, text, func() []byte { return baseInput(g, kind) })
			})
			r.end(s)
		}
		s = r.begin("random-%s", kind)
		r.hostile(s, kind, r.pick(4000, 50000), "random", some(1), func(i int, g *rand.Rand) ([]byte, string) {
			b := randBytes(g, g.Intn(300))
			if g.Intn(2) == 0 && len(b) > 6 {
				copy(b, [][]byte{{0, 0, 1, 0, 1, 0}, {0, 0, 2, 0, 1, 0}, {'M', 'Z'}, {0x40, 0, 0, 0, 0, 0}, {'{', '"'}, {'<', 'a', '>'}}[g.Intn(6)])
			}
			return b, ""
		})
		r.end(s)
	}
}

// hField is a field of an input.
type hField struct {
	off, w, n int // n is the size of what it's about
}

type hostileCase struct {
	Kind string   `json:"kind"`
	F    []string `json:"f"`
	C    []string `json:"c"`
}

// fieldsOf locates the fields of a valid input.
func fieldsOf(kind string, b []byte) map[string]hField {
	f := map[string]hField{}
	u16 := func(o int) int { return int(binary.LittleEndian.Uint16(b[o:])) }
	u32 := func(o int) int { return int(binary.LittleEndian.Uint32(b[o:])) }
	put := func(name string, off, w, n int) {
		if _, ok := f[name]; !ok && off+w <= len(b) {
			f[name] = hField{off, w, n}
		}
	}
	n := len(b)
	switch kind {
	case "exe":
		pe := u32(0x3C)
		put("lfanew", 0x3C, 4, n)
		put("nsec", pe+6, 2, n)
		put("symptr", pe+12, 4, n)
		put("optsize", pe+20, 2, n)
		opt := pe + 24
		put("magic", opt, 2, n)
		put("salign", opt+32, 4, n)
		put("falign", opt+36, 4, n)
		put("checksum", opt+64, 4, n)
		dirs := opt + 96
		if u16(opt) == 0x20B {
			dirs = opt + 112
		}
		put("ndirs", dirs-4, 4, n)
		for i, name := range map[int]string{2: "rsrc", 4: "cert", 5: "reloc"} {
			put(name+".va", dirs+8*i, 4, n)
			put(name+".size", dirs+8*i+4, 4, n)
		}
		secs := opt + u16(pe+20)
		ns := u16(pe + 6)
		base, raw := 0, 0
		for i := 0; i < ns; i++ {
			h := secs + 40*i
			name := ""
			switch {
			case u32(h+12) == u32(dirs+16):
				name = "srsrc"
				base, raw = u32(h+20), u32(h+16)
			case i == 0:
				name = "sfirst"
			case i == ns-1:
				name = "slast"
			default:
				continue
			}
			put(name+".vs", h+8, 4, n)
			put(name+".va", h+12, 4, n)
			put(name+".raw", h+16, 4, n)
			put(name+".ptr", h+20, 4, n)
			put(name+".ch", h+36, 4, n)
		}
		if base == 0 {
			break
		}
		at := base
		for lvl := 0; lvl < 3; lvl++ {
			p := fmt.Sprint("t", lvl)
			nn, ni := u16(at+12), u16(at+14)
			put(p+".names", at+12, 2, raw)
			put(p+".ids", at+14, 2, raw)
			last := at + 16 + 8*(nn+ni-1)
			put(p+".e0.id", at+16, 4, raw)
			put(p+".e0.off", at+20, 4, raw)
			put(p+".eN.id", last, 4, raw)
			put(p+".eN.off", last+4, 4, raw)
			if nn > 0 {
				put("name.len", base+u32(at+16)&0x7FFFFFFF, 2, raw)
			}
			at = base + u32(last+4)&0x7FFFFFFF
		}
		put("d.rva", at, 4, raw)
		put("d.size", at+4, 4, raw)
	case "ico", "cur", "grp":
		es := 16
		if kind == "grp" {
			es = 14
		}
		put("h.res", 0, 2, n)
		put("h.type", 2, 2, n)
		put("h.count", 4, 2, n)
		cnt := u16(4)
		for i := 0; i < cnt && i < 2; i++ {
			e := 6 + es*i
			p := fmt.Sprint("e", i)
			put(p+".dims", e, 2, n)
			put(p+".colors", e+2, 2, n)
			put(p+".planes", e+4, 2, n)
			put(p+".depth", e+6, 2, n)
			put(p+".size", e+8, 4, n)
			if es == 14 {
				put(p+".id", e+12, 2, n)
				continue
			}
			put(p+".off", e+12, 4, n)
			if d := u32(e + 12); d+16 <= n && i == 0 {
				put("dib.hsize", d, 4, u32(e+8))
				put("dib.w", d+4, 4, u32(e+8))
				put("dib.h", d+8, 4, u32(e+8))
				put("dib.planes", d+12, 2, u32(e+8))
				put("dib.depth", d+14, 2, u32(e+8))
			}
		}
	case "vb":
		var node func(at, lvl int)
		node = func(at, lvl int) {
			if at+8 > n || lvl > 3 {
				return
			}
			p := fmt.Sprint("n", lvl)
			l, v := u16(at), u16(at+2)
			put(p+".len", at, 2, l)
			put(p+".vlen", at+2, 2, l)
			put(p+".type", at+4, 2, l)
			put(p+".key", at+6, 2, l)
			k := at + 6
			for k+2 <= n && u16(k) != 0 {
				k += 2
			}
			put(p+".nul", k, 2, l)
			if lvl == 1 {
				put(p+".keyend", k-2, 2, l)
			}
			k = (k + 2 + 3) &^ 3
			if lvl == 0 && v > 0 {
				put("fixed.sig", k, 4, l)
				put("fixed.date", k+44, 4, l)
				k = (k + v + 3) &^ 3
			}
			if k < at+l {
				node(k, lvl+1)
			}
		}
		node(0, 0)
	}
	return f
}

func (f hField) value(b []byte, class string) uint64 {
	v := uint64(0)
	for j := 0; j < f.w; j++ {
		v |= uint64(b[f.off+j]) << (8 * uint(j))
	}
	max := uint64(1)<<(8*uint(f.w)) - 1
	n := uint64(f.n)
	switch class {
	case "zero":
		return 0
	case "one":
		return 1
	case "two":
		return 2
	case "three":
		return 3
	case "max":
		return max
	case "max-1":
		return max - 1
	case "top":
		return max/2 + 1
	case "top-1":
		return max / 2
	case "flip":
		return v ^ (max/2 + 1)
	case "n":
		return n & max
	case "n-1":
		return (n - 1) & max
	case "n+1":
		return (n + 1) & max
	case "n-v":
		return (n - v) & max
	case "-v":
		return (-v) & max
	case "v+1":
		return (v + 1) & max
	case "v-1":
		return (v - 1) & max
	case "v+4":
		return (v + 4) & max
	case "2v":
		return (2 * v) & max
	case "self":
		return uint64(f.off) & max
	}
	panic(class)
}

var hostilePaths = map[string][][]string{
	"exe": {{"LoadFromEXE", "Walk", "GetIcon", "SaveICO"}, {"LoadFromEXE", "GetCursor", "SetCursor", "Patch"}, {"WriteToEXE", "LoadFromEXE"}, {"LoadFromEXESingleType", "Edit"}, {"IsSignedEXE"}, {"LoadFromEXE", "ReadVersion", "FromBytes", "Bytes"}},
	"ico": {{"LoadICO", "SaveICO"}, {"LoadICO", "SetIcon", "GetIcon"}},
	"cur": {{"LoadCUR", "SaveCUR"}, {"LoadCUR", "SetCursor", "GetCursor"}},
	"grp": {{"Reset", "GetIcon", "SaveICO", "LoadICO"}, {"Reset", "GetCursor", "SaveCUR", "LoadCUR"}},
	"vb":  {{"FromBytes", "Bytes", "FromBytes"}, {"FromBytes", "Split", "MarshalVersion"}, {"FromBytes", "Merge", "SetVersionInfo", "ReadVersion"}},
}

var _ = utf16.Encode

func genHostile(r *run) {
	byKind := map[string][]hostileCase{}
	r.readCases(func(i int, raw json.RawMessage) {
		var c hostileCase
		if err := json.Unmarshal(raw, &c); err != nil {
			panic(err)
		}
		byKind[c.Kind] = append(byKind[c.Kind], c)
	})
	for _, kind := range []string{"exe", "ico", "cur", "grp", "vb"} {
		cases := byKind[kind]
		paths := hostilePaths[kind]
		nb := r.pick(4, 24)
		for n := 0; n < nb; n++ {
			g := rand.New(rand.NewSource(r.rng.Int63()))
			base := baseInput(g, kind)
			fields := fieldsOf(kind, base)
			s := r.begin("fields-%s-%d", kind, n)
			r.hostile(s, kind, len(cases), "fields", func(*rand.Rand) [][]string { return paths }, func(i int, g *rand.Rand) ([]byte, string) {
				b := append([]byte{}, base...)
				c := cases[i]
				for j := range c.F {
					f, ok := fields[c.F[j]]
					if !ok {
						return nil, ""
					}
					putN(b, f.off, f.w, f.value(base, c.C[j]))
				}
				return b, fmt.Sprint(c.F, c.C)
			})
			r.end(s)
		}
	}
}
