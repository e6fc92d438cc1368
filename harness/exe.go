package main

import (
	"bytes"
	"debug/pe"
	"encoding/binary"
	"encoding/json"
	"errors"
	"io"
	"math/rand"

	"github.com/tc-hib/winres"
)

func init() {
	families["exe"] = genExe
	families["load"] = genLoad
	families["sum"] = genSum
}

// exeWorld adds executables to a world.
type exeWorld struct {
	*world
	imgs  map[int][]byte
	words bool
}

func newExeWorld(r *run, s *Session, n int, words bool) *exeWorld {
	return &exeWorld{world: newWorld(r, s, n), imgs: map[int][]byte{}, words: words}
}

func (w *exeWorld) image(i int, b []byte) {
	if w.dead {
		return
	}
	w.imgs[i] = b
	w.s.add(Ev{"op": "image", "img": i, "p": projectPE(b, w.words)})
}

// chunkReader is a ReadSeeker that reads at most a few bytes at a time.
type chunkReader struct {
	*bytes.Reader
	n int
}

func (c chunkReader) Read(p []byte) (int, error) {
	if len(p) > c.n {
		p = p[:c.n]
	}
	return c.Reader.Read(p)
}
func (c chunkReader) WriteTo(w io.Writer) (int64, error) { return io.Copy(w, struct{ io.Reader }{c}) }

// onlyRS hides everything but Read and Seek, the size of the source in particular.
type onlyRS struct{ rs io.ReadSeeker }

func (o onlyRS) Read(p []byte) (int, error)                { return o.rs.Read(p) }
func (o onlyRS) Seek(off int64, whence int) (int64, error) { return o.rs.Seek(off, whence) }

// source wraps an image in one of several kinds of readers.
func source(g *rand.Rand, b []byte) io.ReadSeeker {
	switch g.Intn(4) {
	case 0:
		return onlyRS{bytes.NewReader(b)}
	case 1:
		return onlyRS{chunkReader{bytes.NewReader(b), 1 + g.Intn(700)}}
	default:
		r := bytes.NewReader(b)
		if g.Intn(2) == 0 {
			r.Seek(int64(g.Intn(len(b)+1)), io.SeekStart)
		}
		return r
	}
}

// patch writes set i into image src, and makes image dst.
func (w *exeWorld) patch(g *rand.Rand, i, src, dst int, force bool, auth int) bool {
	b := w.imgs[src]
	if b == nil {
		return false
	}
	buf := &capBuffer{}
	var err error
	rd := source(g, b)
	if !w.do("patch", func() {
		type opt = func() error
		switch {
		case force && auth == 1:
			err = w.sets[i].WriteToEXE(buf, rd, winres.ForceCheckSum(), winres.WithAuthenticode(winres.RemoveSignature))
		case force && auth == 2:
			err = w.sets[i].WriteToEXE(buf, rd, winres.WithAuthenticode(winres.IgnoreSignature), winres.ForceCheckSum())
		case force:
			err = w.sets[i].WriteToEXE(buf, rd, winres.ForceCheckSum())
		case auth == 1:
			err = w.sets[i].WriteToEXE(buf, rd, winres.WithAuthenticode(winres.RemoveSignature))
		case auth == 2:
			err = w.sets[i].WriteToEXE(buf, rd, winres.WithAuthenticode(winres.IgnoreSignature))
		case g.Intn(2) == 0:
			err = w.sets[i].WriteToEXE(buf, rd, winres.WithAuthenticode(winres.ErrorIfSigned))
		default:
			err = w.sets[i].WriteToEXE(buf, rd)
		}
	}) {
		return false
	}
	e := Ev{"op": "patch", "s": i + 1, "src": src, "dst": dst, "force": force, "auth": auth,
		"err": err != nil, "signederr": errors.Is(err, winres.ErrSignedPE), "wrote": buf.Len(), "p": badProj}
	if err != nil {
		e["msg"] = err.Error()
	} else {
		e["p"] = projectPE(buf.Bytes(), w.words)
		w.imgs[dst] = buf.Bytes()
	}
	w.s.add(e)
	return err == nil
}

// load loads image img into set i, the resources of type t only if t is not nil.
func (w *exeWorld) load(g *rand.Rand, img, i int, t winres.Identifier) {
	b := w.imgs[img]
	if b == nil {
		return
	}
	var (
		rs  *winres.ResourceSet
		err error
	)
	rd := source(g, b)
	if !w.do("load", func() {
		if t == nil {
			rs, err = winres.LoadFromEXE(rd)
		} else {
			rs, err = winres.LoadFromEXESingleType(rd, t)
		}
	}) {
		return
	}
	e := Ev{"op": "load", "img": img, "s": i + 1, "single": t != nil, "t": []int{}, "err": err != nil,
		"none": err == winres.ErrNoResources, "nilset": rs == nil}
	if t != nil {
		e["t"] = encIdent(t)
	}
	if rs == nil {
		rs = &winres.ResourceSet{}
	}
	if !w.do("walk", func() { e["out"] = walkAll(rs) }) {
		return
	}
	w.sets[i] = rs
	w.live[i] = map[key]bool{}
	rs.Walk(func(t, r winres.Identifier, l uint16, data []byte) bool {
		w.live[i][key{t, r, l}] = true
		return true
	})
	w.s.add(e)
}

func (w *exeWorld) signed(g *rand.Rand, img int) {
	b := w.imgs[img]
	if b == nil {
		return
	}
	r := bytes.NewReader(b)
	var rd io.ReadSeeker = r
	if g.Intn(2) == 0 {
		rd = onlyRS{r}
	}
	before := int64(g.Intn(len(b) + 10))
	r.Seek(before, io.SeekStart)
	var (
		ok  bool
		err error
	)
	if !w.do("signed", func() { ok, err = winres.IsSignedEXE(rd) }) {
		return
	}
	after, _ := r.Seek(0, io.SeekCurrent)
	w.s.add(Ev{"op": "signed", "img": img, "r": ok, "err": err != nil, "kept": before == after})
}

// stranger records what is done with a file that is not an image. hdrEnd: where its headers should end.
func (w *exeWorld) stranger(g *rand.Rand, b []byte, hdrEnd int) {
	part := func(o, n int) []int {
		if o < 0 || o+n > len(b) {
			return []int{}
		}
		return ints(b[o : o+n])
	}
	lf := -1
	if len(b) >= 0x40 {
		lf = clip31(int64(binary.LittleEndian.Uint32(b[0x3C:])))
	}
	e := Ev{"op": "stranger", "len": len(b), "hdrEnd": hdrEnd, "mz": part(0, 2), "sig": []int{}, "magic": []int{}}
	if lf >= 0 && lf < len(b) {
		e["sig"], e["magic"] = part(lf, 4), part(lf+24, 2)
	}
	ok := w.do("load", func() {
		var err error
		if g.Intn(2) == 0 {
			_, err = winres.LoadFromEXE(source(g, b))
		} else {
			_, err = winres.LoadFromEXESingleType(source(g, b), winres.RT_ICON)
		}
		e["load"], e["none"] = err != nil, err == winres.ErrNoResources
	}) && w.do("patch", func() {
		buf := &capBuffer{}
		err := w.sets[0].WriteToEXE(buf, source(g, b))
		e["patch"], e["wrote"], e["signederr"] = err != nil, buf.Len(), err == winres.ErrSignedPE
	}) && w.do("signed", func() {
		r := bytes.NewReader(b)
		before := int64(g.Intn(len(b) + 10))
		r.Seek(before, io.SeekStart)
		is, err := winres.IsSignedEXE(r)
		after, _ := r.Seek(0, io.SeekCurrent)
		e["signed"], e["kept"] = err != nil && !is, before == after
	})
	if ok {
		w.s.add(e)
	}
}

// rsrcSection finds the resource section of an image in its bytes.
func rsrcSection(b []byte) (va, start, end int) {
	f, err := pe.NewFile(bytes.NewReader(b))
	if err != nil {
		return 0, 0, 0
	}
	switch h := f.OptionalHeader.(type) {
	case *pe.OptionalHeader32:
		va = int(h.DataDirectory[2].VirtualAddress)
	case *pe.OptionalHeader64:
		va = int(h.DataDirectory[2].VirtualAddress)
	}
	for _, s := range f.Sections {
		if va != 0 && int(s.VirtualAddress) == va {
			return va, int(s.Offset), int(s.Offset + s.Size)
		}
	}
	return 0, 0, 0
}

// broken makes images whose resource directory is broken in one place.
func (r *run) broken(n int) {
	for i := 0; i < n; i++ {
		g := rand.New(rand.NewSource(r.rng.Int63()))
		s := r.begin("broken-%d", i)
		w := newExeWorld(r, s, 1, false)
		p := newPool(g, 1+g.Intn(3), 1+g.Intn(3), 1+g.Intn(2))
		if g.Intn(2) == 0 {
			p.types = append(p.types, winres.RT_ICON, winres.RT_GROUP_ICON)
		}
		c := randCfg(g)
		c.FA, c.SA, c.Overlay, c.Cert, c.Sym = 0x20, 0x1000, g.Intn(2)*300, 0, ""
		for j := range c.Secs {
			c.Secs[j].VFar, c.Secs[j].Cut = 0, 0
			if c.Secs[j].Kind == "rsrc" {
				c.Secs[j].Kind = "data"
			}
		}
		c.Extra = g.Intn(2)
		c.Secs[g.Intn(len(c.Secs))].Kind = "rsrc"
		var leaves []leaf
		for _, l := range p.leaves(g, 1+g.Intn(5)) {
			if len(l.data) > 100 {
				l.data = l.data[:100]
			}
			leaves = append(leaves, l)
		}
		b := c.build(g, foreignDir(g, leaves, i%5))
		va, start, end := rsrcSection(b)
		if start == 0 || end-start > 4000 {
			r.end(s)
			continue
		}
		types := append([]winres.Identifier{nil, winres.RT_GROUP_ICON}, p.types...)
		load := func(x []byte, cut bool, t winres.Identifier) {
			e := Ev{"op": "broken", "cut": cut, "va": va, "sec": []int{}, "single": t != nil, "t": []int{}}
			if !cut {
				e["sec"] = ints(x[start:end])
			}
			if t != nil {
				e["t"] = encIdent(t)
			}
			if w.do("load", func() {
				var err error
				if t == nil {
					_, err = winres.LoadFromEXE(source(g, x))
				} else {
					_, err = winres.LoadFromEXESingleType(source(g, x), t)
				}
				e["err"], e["none"] = err != nil, err == winres.ErrNoResources
				if cut {
					e["patch"] = w.sets[0].WriteToEXE(&capBuffer{}, source(g, x)) != nil
				}
			}) {
				s.add(e)
			}
		}
		cuts := []int{end - 1, start, start + 1 + g.Intn(end-start-1), end - 1 - g.Intn(16)}
		load(b[:cuts[i%4]], true, types[g.Intn(2)*g.Intn(len(types))])

		size := end - start
		tables, names, entries := dirPlaces(b[start:end])
		var spots []func(x []byte)
		le := binary.LittleEndian
		put32 := func(o int, vs ...int) {
			for _, v := range vs {
				v := uint32(v)
				spots = append(spots, func(x []byte) { le.PutUint32(x[o:], v) })
			}
		}
		put16 := func(o int, vs ...int) {
			for _, v := range vs {
				v := uint16(v)
				spots = append(spots, func(x []byte) { le.PutUint16(x[o:], v) })
			}
		}
		sec := b[start:end]
		for _, t := range tables {
			nn, ni := int(le.Uint16(sec[t.off+12:])), int(le.Uint16(sec[t.off+14:]))
			put16(t.off+14, 0xFFFF, ni+1+(size-t.off-16)/8, ni+(size-t.off-8)/8)
			put16(t.off+12, 0xFFFF)
			for k := 0; k < nn+ni; k++ {
				o := t.off + 16 + 8*k
				target := int(le.Uint32(sec[o+4:]))
				put32(o+4, target^0x80000000, target&0x80000000|size, target&0x80000000|(size-1), target&0x80000000|(size-15), target&0x80000000|0x7FFFFFFF,
					target|0x10000, target|0x7F000000)
				if k < nn {
					put32(o, 0x80000000|size, 0x80000000|(size-1), 0x80000000|(size-2), 0xFFFFFFFF)
				} else if t.level == 2 {
					put32(o, 0x80000000, 0x80000000|int(le.Uint32(sec[o:])))
				}
			}
		}
		for _, o := range names {
			put16(o, 0xFFFF, (size-o-2)/2+1, 0x8000)
		}
		for _, o := range entries {
			n, at := int(le.Uint32(sec[o+4:])), int(le.Uint32(sec[o:]))
			put32(o, 0, va-1, at-va, va+size-n+1, va+size+1, at|0x80000000, 0xFFFFFFFF, 0x7FFFFFFF)
			put32(o+4, va+size-at+1, size+1, 0x7FFFFFFF, 0x80000000|n, 0xFFFFFFFF, 0x80000000-at+va, -at, -(at - va))
		}
		for j := 0; j < 20; j++ {
			x := append([]byte(nil), b...)
			spots[g.Intn(len(spots))](x[start:end])
			load(x, false, types[g.Intn(2)*g.Intn(len(types))])
		}
		r.end(s)
	}
}

type dirPlace struct{ off, level int }

// dirPlaces finds the tables, names and data entries of a directory made by layForeignDir.
func dirPlaces(sec []byte) (tables []dirPlace, names, entries []int) {
	le := binary.LittleEndian
	var rec func(o, level int)
	rec = func(o, level int) {
		tables = append(tables, dirPlace{o, level})
		n := int(le.Uint16(sec[o+12:])) + int(le.Uint16(sec[o+14:]))
		for k := 0; k < n; k++ {
			e := sec[o+16+8*k:]
			if v := le.Uint32(e); v&0x80000000 != 0 {
				names = append(names, int(v&0x7FFFFFFF))
			}
			if t := int(le.Uint32(e[4:]) & 0x7FFFFFFF); level < 2 {
				rec(t, level+1)
			} else {
				entries = append(entries, t)
			}
		}
	}
	rec(0, 0)
	return
}

// strangers makes files that are not images.
func (r *run) strangers(n int) {
	for i := 0; i < n; i++ {
		g := rand.New(rand.NewSource(r.rng.Int63()))
		s := r.begin("stranger-%d", i)
		w := newExeWorld(r, s, 1, false)
		c := randCfg(g)
		c.Lfanew = 0x40 + 8*g.Intn(6)
		b := c.build(g, foreignDir(g, sized(g, 10), 0))
		opt := 96
		if c.PE64 {
			opt = 112
		}
		hdrEnd := c.Lfanew + 24 + opt + c.Dirs*8 + c.Slack + 40*len(c.Secs)
		change := func(o int, v ...byte) {
			x := append([]byte(nil), b...)
			copy(x[o:], v)
			w.stranger(g, x, hdrEnd)
		}
		change(0, 'm', 'z')
		change(0, 'Z', 'M')
		change(0, "MN"[g.Intn(2)], byte('Z'+1))
		change(0, 'N', 'Z')
		for j := 0; j < 4; j++ {
			change(c.Lfanew+j, "PE\x00\x00"[j]+byte(1+g.Intn(255)))
		}
		change(c.Lfanew, 'N', 'E')
		change(c.Lfanew, 'L', 'E')
		m := c.Lfanew + 24
		change(m, 0x07, 0x01) // a ROM image
		change(m, 0x0B, 0x03)
		change(m, 0x0B, 0x00)
		change(m, 0x0B+byte(1+g.Intn(255)))
		change(m+1, byte(3+g.Intn(253)))
		for _, n := range []int{0, 1, 2, 0x3B, 0x3C, 0x3F, 0x40, c.Lfanew, c.Lfanew + 3, c.Lfanew + 4, c.Lfanew + 23, m, m + 1, m + 2, m + opt - 1, m + opt, hdrEnd - 41, hdrEnd - 1, g.Intn(hdrEnd)} {
			w.stranger(g, b[:n], hdrEnd)
		}
		w.stranger(g, randBytes(g, g.Intn(3000)), 1<<20)
		w.stranger(g, bytes.Repeat([]byte("MZ"), 200), 1<<20)
		w.stranger(g, []byte("PE\x00\x00 is not an executable"), 1<<20)
		r.end(s)
	}
}

// fill gives set i about n bytes of resources.
func (w *exeWorld) fill(g *rand.Rand, i int, p keyPool, n int) {
	w.clear(i)
	if n < 0 {
		return
	}
	k := 1 + g.Intn(4)
	for j := 0; j < k && n > 0; j++ {
		sz := n
		if j < k-1 {
			sz = g.Intn(n + 1)
		}
		n -= sz
		if g.Intn(3) > 0 {
			sz = (sz + 7) &^ 7
		}
		x := p.key(g)
		w.set(i, x.t, x.r, x.l, w.exact(g, sz))
	}
}

// peCase is an image layout generated by PEPatchGen, in units of 256 bytes.
type peCase struct {
	C struct {
		Kinds []string `json:"kinds"`
		N     int      `json:"n"`
		Rx    int      `json:"rx"`
		Dv    int      `json:"dv"`
		Room  int      `json:"room"`
		Gap   int      `json:"gap"`
		Rev   bool     `json:"rev"`
		Cut   int      `json:"cut"`
		Ovl   int      `json:"ovl"`
		Cert  int      `json:"cert"`
		Sym   string   `json:"sym"`
	} `json:"c"`
	N int `json:"n"`
}

// roomFor chooses a stub length such that exactly room section headers fit.
func (c *peCfg) roomFor(room int) { c.roomOf(40 * room) }

// roomOf chooses a stub length such that exactly n bytes are left for section headers.
func (c *peCfg) roomOf(n int) {
	opt := 96
	if c.PE64 {
		opt = 112
	}
	end := func() int { return c.Lfanew + 24 + opt + 8*c.Dirs + 40*len(c.Secs) + n }
	c.Lfanew = 0x40
	for end()%c.FA != 0 {
		c.Lfanew += 8
	}
	c.Room = n
	c.RawGap = 0
}

// sized returns leaves whose directory takes exactly n bytes, if possible: one resource.
func sized(g *rand.Rand, n int) []leaf {
	const overhead = 16 + 8 + 16 + 8 + 16 + 8 + 16
	d := n - overhead
	if d < 0 {
		d = 0
	}
	return []leaf{{key{winres.ID(10), winres.ID(1 + g.Intn(100)), 0x409}, randBytes(g, d)}}
}

func (pc peCase) cfg(g *rand.Rand, i int) peCfg {
	const unit = 0x100
	c := peCfg{PE64: i%2 == 0, Dirs: []int{16, 16, 16, 6, 11}[i%5], FA: 0x200, SA: []int{0x400, 0x1000}[i/2%2], Sum: i%3 == 0}
	if pc.C.Room == 2 {
		c.RawGap = 0
	}
	n := len(pc.C.Kinds)
	for j, k := range pc.C.Kinds {
		s := secCfg{Order: j}
		if pc.C.Rev {
			s.Order = n - j
		}
		switch k {
		case "d":
			s.Kind = []string{"code", "data"}[j%2]
			s.Raw = 2
			s.VPlus = pc.C.Dv * unit
		case "u":
			s.Kind, s.Raw = []string{"bss", "empty"}[j%2], 1
		case "R":
			s.Kind = "rsrc"
			c.Extra = pc.C.Rx / 2
		case "B":
			s.Kind, s.Raw = "reloc", 1
		}
		c.Secs = append(c.Secs, s)
	}
	if pc.C.Cut > 0 { // the last section of the file
		for j := n - 1; j >= 0; j-- {
			if k := c.Secs[j].Kind; k == "code" || k == "data" {
				c.Secs[j].Cut = []int{1, 0x100, 0x1FF, 4}[i%4]
				break
			}
		}
	}
	c.roomFor(pc.C.Room)
	c.RawGap = pc.C.Gap / 2
	c.Overlay = pc.C.Ovl * unit / 3
	if c.Dirs > 4 {
		c.Cert = pc.C.Cert * unit / 4
	}
	switch pc.C.Sym {
	case "ovl":
		c.Sym = "overlay"
	case "sec":
		c.Sym = "section"
	}
	return c
}

func randCfg(g *rand.Rand) peCfg {
	c := peCfg{
		PE64: g.Intn(2) == 0, Lfanew: 0x40 + 8*g.Intn(40), Dirs: []int{16, 16, 16, 16, 6, 7, 12, 17}[g.Intn(8)],
		FA: []int{0x200, 0x200, 0x200, 0x400, 0x1000, 0x20, 0x10}[g.Intn(7)], SA: []int{0x1000, 0x1000, 0x2000, 0x200, 0x400}[g.Intn(5)],
		Room: []int{0, 8, 39, 40, 41, 80, 300}[g.Intn(7)], RawGap: g.Intn(5) / 4,
		Sum: g.Intn(2) == 0,
	}
	if c.SA < c.FA {
		c.SA = c.FA
	}
	if g.Intn(12) == 0 { // below the size of a page, both are the same
		c.FA = []int{0x10, 0x20, 0x40, 0x80}[g.Intn(4)]
		c.SA = c.FA
	}
	if g.Intn(25) == 0 { // an optional header longer than its directories
		c.Slack = []int{4, 8, 16, 100}[g.Intn(4)]
	}
	if g.Intn(30) == 0 { // a long stub
		c.Lfanew = []int{0xFFF8, 0x10000, 0x10008, 0x12340, 0x7FF8, 0x8000, 0x8008}[g.Intn(7)]
	}
	n := 1 + g.Intn(6)
	rsrc, reloc := -1, -1
	if g.Intn(3) > 0 {
		rsrc = g.Intn(n)
	}
	if g.Intn(2) == 0 {
		reloc = g.Intn(n)
	}
	for i := 0; i < n; i++ {
		s := secCfg{Order: i}
		switch {
		case i == rsrc:
			s.Kind = "rsrc"
			if g.Intn(3) == 0 {
				s.VSet = true
				s.VPlus = []int{0, 1, -1, c.SA, 2 * c.SA, c.FA}[g.Intn(6)]
			}
			c.Extra = []int{0, 0, 1, 3, 10}[g.Intn(5)]
		case i == reloc:
			s.Kind = "reloc"
			s.Raw = 1 + g.Intn(2)
			s.VPlus = []int{0, -3, 1, -c.FA + 1}[g.Intn(4)]
		default:
			s.Kind = []string{"code", "data", "data", "bss", "empty"}[g.Intn(5)]
			s.Raw = 1 + g.Intn(3)
			s.VPlus = []int{0, 0, -1, -7, 100, c.SA, 3*c.SA + 5}[g.Intn(7)]
			if s.Kind == "bss" && g.Intn(3) == 0 {
				s.Claim = 1 + g.Intn(20)
			}
		}
		if s.Kind == "reloc" && i < n-1 && g.Intn(2) == 0 {
			s.VGap = g.Intn(3)
		} else if g.Intn(5) == 0 {
			s.VGap = g.Intn(3)
		}
		c.Secs = append(c.Secs, s)
	}
	if g.Intn(4) == 0 { // another order in the file
		p := g.Perm(n)
		for i := range c.Secs {
			c.Secs[i].Order = p[i]
		}
	}
	if g.Intn(4) == 0 { // names do not matter
		for i := range c.Secs {
			if g.Intn(2) == 0 {
				c.Secs[i].Name = []string{".rsrc", ".rsrc", ".rsrc2", "RSRC", ".reloc", ".reloc", "UPX0", ".text", "\x00", "12345678"}[g.Intn(10)]
			}
		}
	}
	if g.Intn(6) == 0 { // high addresses
		c.Secs[g.Intn(n)].VFar = []int{0xFF0000, 0x1000000, 0x3FF0000, 0x7FFF000, 0x10000000, 0x3FE00000}[g.Intn(6)]
	}
	has := false
	for _, s := range c.Secs {
		has = has || s.Kind == "code" || s.Kind == "data" || s.Kind == "rsrc" || s.Kind == "reloc"
	}
	if !has {
		c.Secs[0].Kind = "code"
	}
	if g.Intn(6) == 0 { // the last section is not aligned
		for i := range c.Secs {
			if c.Secs[i].Order == n-1 && (c.Secs[i].Kind == "code" || c.Secs[i].Kind == "data") {
				c.Secs[i].Cut = []int{1, 1, 2, 8, c.FA - 1, 1 + g.Intn(c.FA-1)}[g.Intn(6)]
			}
		}
	}
	if n > 2 && g.Intn(12) == 0 { // base relocations that fill their pages, after resources, and maybe before something else
		i := g.Intn(n - 1)
		for j := range c.Secs {
			c.Secs[j].Order, c.Secs[j].Cut = j, 0
		}
		c.Secs[i] = secCfg{Kind: "rsrc", Order: i}
		for j := range c.Secs {
			if j != i && c.Secs[j].Kind == "rsrc" || c.Secs[j].Kind == "reloc" {
				c.Secs[j].Kind, c.Secs[j].Raw = "data", 1
			}
		}
		c.Secs[i+1] = secCfg{Kind: "reloc", Order: i + 1, Raw: c.SA / c.FA * (1 + g.Intn(2)), VPlus: []int{0, 0, -1, -c.FA}[g.Intn(4)]}
		if n > i+2 {
			c.Secs[n-1].Raw = 1
		}
	}
	if g.Intn(2) == 0 {
		c.Overlay = []int{1, 2, 7, 8, 100, 511, 512, 513, 1000}[g.Intn(9)]
	}
	if g.Intn(3) == 0 {
		c.Cert = []int{8, 16, 100, 1000, 1}[g.Intn(5)]
		c.CertOdd = g.Intn(4) == 0
		if g.Intn(3) == 0 {
			c.CertMid = 1 + g.Intn(30)
		}
	}
	switch g.Intn(5) {
	case 0:
		c.Sym = "overlay"
	case 1:
		c.Sym = "section"
	}
	return c
}

func genExe(r *run) {
	pool := func(g *rand.Rand) keyPool { return newPool(g, 1+g.Intn(2), 1+g.Intn(3), 1+g.Intn(2)) }
	r.readCases(func(i int, raw json.RawMessage) {
		var pc peCase
		if err := json.Unmarshal(raw, &pc); err != nil {
			panic(err)
		}
		g := rand.New(rand.NewSource(int64(i) + 77))
		s := r.begin("layout-%d", i)
		w := newExeWorld(r, s, 2, false)
		c := pc.cfg(g, i)
		b := c.build(g, foreignDir(g, sized(g, pc.C.N*0x100), 0))
		w.image(1, b)
		w.signed(g, 1)
		for _, l := range sized(g, pc.N*0x100) {
			w.set(0, l.t, l.r, l.l, l.data)
		}
		auth := 1 + i%2
		if i%16 == 3 && pc.C.Cert > 0 {
			w.patch(g, 0, 1, 2, false, 0)
		}
		if w.patch(g, 0, 1, 2, i%5 == 0, auth) {
			w.load(g, 2, 1, nil)
			w.signed(g, 2)
		}
		r.end(s)
	})

	// every room there may be for a section header, with or without a gap after it
	for i, n := 0, []int{0, 8, 16, 24, 32, 40, 48, 72, 80, 88}; i < 4*len(n); i++ {
		g := rand.New(rand.NewSource(int64(i)))
		s := r.begin("room-%d", i)
		w := newExeWorld(r, s, 1, false)
		c := peCfg{PE64: i%3 == 0, Dirs: 16, FA: 0x200, SA: []int{0x200, 0x1000}[i/2%2], Sum: i%5 < 2, Secs: []secCfg{{Kind: "code", Raw: 1}, {Kind: "data", Raw: 1, Order: 1}}}
		c.roomOf(n[i/4])
		c.RawGap = i % 2
		w.image(1, c.build(g, nil))
		w.set(0, winres.ID(10), winres.ID(1), 0x409, randBytes(g, 30))
		if w.patch(g, 0, 1, 2, false, 0) {
			w.load(g, 2, 0, nil)
		}
		r.end(s)
	}
	r.strangers(r.pick(8, 80))
	r.broken(r.pick(15, 150))
	r.throngs(true, r.limits())

	// more data than 24 bits can address
	for i := 0; i < r.pick(1, 4); i++ {
		g := rand.New(rand.NewSource(r.rng.Int63()))
		s := r.begin("huge-%d", i)
		w := newExeWorld(r, s, 2, false)
		c := peCfg{PE64: i%2 == 0, Lfanew: 0x40, Dirs: 16, FA: 0x200, SA: 0x1000, Room: 40, Overlay: 10,
			Secs: []secCfg{{Kind: "code", Raw: 1}, {Kind: []string{"rsrc", "data"}[i/2%2], Raw: 1, Order: 1}}}
		w.image(1, c.build(g, foreignDir(g, sized(g, 100), 0)))
		for j := 0; j < 4; j++ {
			w.set(0, winres.ID(10), winres.ID(1+j), 0x409, randBytes(g, []int{100, 17 << 20, 5, 9}[j]))
		}
		if w.patch(g, 0, 1, 2, false, 0) {
			w.load(g, 2, 1, nil)
			w.set(1, winres.ID(10), winres.ID(2), 0x409, nil)
			if w.patch(g, 1, 2, 3, false, 0) {
				w.load(g, 3, 0, nil)
			}
		}
		r.end(s)
	}

	n := r.pick(500, 4000)
	for i := 0; i < n; i++ {
		g := rand.New(rand.NewSource(r.rng.Int63()))
		s := r.begin("exe-%d", i)
		w := newExeWorld(r, s, 2, false)
		p := pool(g)
		c := randCfg(g)
		sz := []int{0, 10, 100, 500, 1000, c.FA, c.SA, 2*c.SA + 100}[g.Intn(8)]
		if i%20 == 11 { // more than 16 bits can count
			sz = []int{65536, 70000, 140000}[g.Intn(3)]
		}
		w.image(1, c.build(g, foreignDir(g, append(p.leaves(g, g.Intn(5)), sized(g, sz)...), g.Intn(5))))
		w.signed(g, 1)
		if c.Cert > 0 && g.Intn(3) == 0 {
			w.patch(g, 0, 1, 2, g.Intn(2) == 0, 0)
		}
		cur := 1
		for j := 1 + g.Intn(4); j > 0; j-- {
			n := []int{-1, 0, 3, 100, 400, 1000, c.FA - 88, c.SA - 88, c.SA, 2 * c.SA, 3*c.SA + 9}[g.Intn(11)]
			if i%10 == 1 && g.Intn(2) == 0 {
				n = []int{65535 - 88, 65536, 66000, 131072}[g.Intn(4)]
			}
			w.fill(g, 0, p, n)
			auth := 1 + g.Intn(2)
			if c.Cert == 0 || g.Intn(6) == 0 {
				auth = g.Intn(3)
			}
			if w.patch(g, 0, cur, cur+1, g.Intn(4) == 0, auth) {
				cur++
				w.load(g, cur, 1, nil)
				w.signed(g, cur)
			}
		}
		r.end(s)
	}
}

// genLoad records loading from images whose resources were laid out by other tools (C07).
func genLoad(r *run) {
	n := r.pick(700, 4000)
	for i := 0; i < n; i++ {
		g := rand.New(rand.NewSource(r.rng.Int63()))
		s := r.begin("load-%d", i)
		w := newExeWorld(r, s, 3, false)
		p := newPool(g, 1+g.Intn(4), 1+g.Intn(5), 1+g.Intn(4))
		for _, t := range []winres.ID{winres.RT_ICON, winres.RT_GROUP_ICON, winres.RT_CURSOR, winres.RT_GROUP_CURSOR} {
			if g.Intn(3) == 0 {
				p.types = append(p.types, t)
			}
		}
		if i%4 == 1 { // types that look like one another
			for _, t := range p.types[:1+g.Intn(len(p.types))] {
				p.types = append(p.types, lookalike(g, t))
			}
		}
		c := randCfg(g)
		if i%10 > 0 {
			c.Secs[g.Intn(len(c.Secs))].Kind = "rsrc"
			seen := false
			for j := range c.Secs {
				if c.Secs[j].Kind == "rsrc" {
					if seen {
						c.Secs[j].Kind = "data"
					}
					seen = true
				}
			}
		}
		leaves := p.leaves(g, g.Intn(14))
		w.image(1, c.build(g, foreignDir(g, leaves, i%5)))
		w.load(g, 1, 0, nil)
		types := append([]winres.Identifier{winres.RT_ICON, winres.RT_GROUP_ICON, winres.RT_CURSOR, winres.RT_GROUP_CURSOR, winres.Name("ICON"), winres.ID(99)}, p.types...)
		for j := 0; j < 4; j++ {
			w.load(g, 1, 1, types[g.Intn(len(types))])
		}
		w.load(g, 1, 1, lookalike(g, p.types[g.Intn(len(p.types))]))
		if i%8 == 3 {
			w.load(g, 1, 1, winres.ID(0))
			w.load(g, 1, 1, types[g.Intn(len(types))])
		}
		w.final(1, keyPool{types: types[:4], ress: p.ress, langs: p.langs}, false)
		// The loaded set behaves like any other
		w.final(0, p, true)
		w.mix(g, 0, p, 15, nil)
		w.final(0, p, i%3 == 0)
		if g.Intn(3) == 0 && w.patch(g, 0, 1, 2, false, 2) {
			w.load(g, 2, 2, nil)
			w.final(2, p, false)
			w.load(g, 2, 1, types[g.Intn(len(types))])
		}
		r.end(s)
	}
	r.strangers(r.pick(8, 80))
	r.broken(r.pick(60, 600))

	// many entries in one table
	n = r.pick(3, 6)
	for i := 0; i < n; i++ {
		g := rand.New(rand.NewSource(r.rng.Int63()))
		s := r.begin("many-%d", i)
		w := newExeWorld(r, s, 2, false)
		var leaves []leaf
		for j := 0; j < r.pick(400, 1500); j++ {
			k := key{winres.ID(5), winres.ID(1 + j*17), 0}
			switch i % 3 {
			case 1:
				k = key{winres.ID(1 + j), winres.ID(1), 0}
			case 2:
				k = key{winres.ID(5), winres.ID(1), uint16(j * 13)}
			}
			leaves = append(leaves, leaf{k, []byte{byte(j)}})
		}
		c := peCfg{Lfanew: 0x80, Dirs: 16, FA: 0x200, SA: 0x1000, Room: 40, Secs: []secCfg{{Kind: "rsrc"}}}
		w.image(1, c.build(g, foreignDir(g, leaves, i%3)))
		w.load(g, 1, 0, nil)
		w.count(0)
		r.end(s)
	}
}

// sums patches image src many times, with every other value of one of its words, or of a word of the resources in set i.
// dst is the image made when that word is zero.
func (w *exeWorld) sums(g *rand.Rand, i, src, dst int) {
	b := append([]byte(nil), w.imgs[src]...)
	f, err := pe.NewFile(bytes.NewReader(b))
	if err != nil || w.dead {
		return
	}
	var spots [][2]int // where a word may be
	end := 0
	rva := func() uint32 {
		switch h := f.OptionalHeader.(type) {
		case *pe.OptionalHeader32:
			return h.DataDirectory[2].VirtualAddress
		case *pe.OptionalHeader64:
			return h.DataDirectory[2].VirtualAddress
		}
		return 0
	}()
	for _, s := range f.Sections {
		if s.Size == 0 || s.Characteristics&pe.IMAGE_SCN_CNT_UNINITIALIZED_DATA != 0 {
			continue
		}
		if int(s.Offset+s.Size) > end {
			end = int(s.Offset + s.Size)
		}
		if s.VirtualAddress != rva {
			spots = append(spots, [2]int{int(s.Offset), int(s.Offset + s.Size)})
		}
	}
	if end < len(b)-1 {
		spots = append(spots, [2]int{end, len(b)}, [2]int{end, len(b)})
	}
	even := spots[:0] // words are at even offsets
	for _, s := range spots {
		s[0] += s[0] % 2
		if s[1]-s[0] >= 2 {
			even = append(even, s)
		}
	}
	spots = even
	n := g.Intn(len(spots) + 1)
	data := []byte{}
	put := func(v int) {
		binary.LittleEndian.PutUint16(data, uint16(v))
	}
	if n == len(spots) {
		all := bytes.Repeat([]byte{byte(g.Intn(2)) * 0xFF}, 2+g.Intn(300))
		data = all[g.Intn(len(all)/2)*2:]
		put(0)
		w.set(i, winres.ID(10), winres.ID(1), 0x409, all)
	} else {
		s := spots[n]
		data = b[s[0]+g.Intn((s[1]-s[0])/2)*2:]
		put(0)
		src += 1000
		w.image(src, b)
	}
	if !w.patch(g, i, src, dst, true, 2) {
		return
	}
	base := w.imgs[dst]
	sumAt := int(binary.LittleEndian.Uint32(base[0x3C:])) + 24 + 64
	e := Ev{"op": "sums", "img": dst, "at": -1, "v": []int{}, "lo": []int{}, "hi": []int{}}
	var vs, lo, hi []int
	at := -1
	first := g.Intn(300)
	for v := 0xFFFF - first; v > 0; v -= 251 + g.Intn(9) {
		put(v | 1)
		buf := &capBuffer{}
		if !w.do("patch", func() {
			err = w.sets[i].WriteToEXE(buf, bytes.NewReader(b), winres.ForceCheckSum(), winres.WithAuthenticode(winres.IgnoreSignature))
		}) {
			return
		}
		o := buf.Bytes()
		if err != nil || len(o) != len(base) {
			break
		}
		// only that word may differ, besides the checksum
		same := true
		for k := range o {
			if o[k] != base[k] && (k < sumAt || k >= sumAt+4) {
				if at < 0 {
					at = k &^ 1
				}
				same = same && k&^1 == at
			}
		}
		if !same || at < 0 {
			break
		}
		vs = append(vs, int(binary.LittleEndian.Uint16(o[at:])))
		lo = append(lo, int(binary.LittleEndian.Uint16(o[sumAt:])))
		hi = append(hi, int(binary.LittleEndian.Uint16(o[sumAt+2:])))
	}
	put(0)
	if len(vs) > 0 {
		e["at"], e["v"], e["lo"], e["hi"] = at, vs, lo, hi
		w.s.add(e)
	}
}

// genSum records patches with the words of the files (C10).
func genSum(r *run) {
	n := r.pick(280, 1500)
	for i := 0; i < n; i++ {
		g := rand.New(rand.NewSource(r.rng.Int63()))
		s := r.begin("sum-%d", i)
		w := newExeWorld(r, s, 1, true)
		p := newPool(g, 1, 2, 2)
		c := randCfg(g)
		c.FA = []int{0x200, 0x20, 0x10, 0x20}[g.Intn(4)]
		for j := range c.Secs {
			if c.Secs[j].Raw > 2 {
				c.Secs[j].Raw = 1
			}
			c.Secs[j].Cut %= c.FA
		}
		c.Extra = 0
		c.Lfanew = 0x40 + 8*g.Intn(6)
		if g.Intn(2) == 0 {
			c.Overlay = 1 + g.Intn(60)
		}
		if i%40 == 7 { // longer than the buffers of io.Copy
			c.Overlay = 33000 + g.Intn(3)
		}
		b := c.build(g, foreignDir(g, sized(g, 10), 0))
		if i%3 == 0 { // long runs of carries
			for j := len(b) - c.Overlay - c.Cert - c.CertMid; j < len(b) && c.Cert == 0; j++ {
				b[j] = 0xFF
			}
		}
		setSum(b, c, []uint32{0, 0, 1, 0x10000, 0xFFFFFFFF, 0xABCD0000, 0x100, 0x1000000, 0x80000000, 0xFF000000, 0xFF00, 0x7F000000}[g.Intn(12)])
		w.image(1, b)
		cur := 1
		for j := 1 + g.Intn(2); j > 0; j-- {
			w.fill(g, 0, p, g.Intn(100))
			if w.patch(g, 0, cur, cur+1, g.Intn(3) == 0, 1+g.Intn(2)) {
				cur++
			}
		}
		if i%2 == 0 {
			w.sums(g, 0, cur, cur+1)
		}
		r.end(s)
	}
}

func setSum(b []byte, c peCfg, v uint32) {
	binary.LittleEndian.PutUint32(b[c.Lfanew+24+64:], v)
}
