package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"image"
	"image/color"
	"image/png"
	"io"
	"math/rand"

	"github.com/tc-hib/winres"
)

func init() {
	families["icon"] = func(r *run) { genGroups(r, 1) }
	families["cursor"] = func(r *run) { genGroups(r, 2) }
	families["icofile"] = genIcoFiles
	families["pix"] = genPix
}

var (
	groupType = map[int]winres.ID{1: winres.RT_GROUP_ICON, 2: winres.RT_GROUP_CURSOR}
	imageType = map[int]winres.ID{1: winres.RT_ICON, 2: winres.RT_CURSOR}
)

// iconWorld adds icons and cursors to a world.
type iconWorld struct {
	*world
	blobs   map[string]Ev
	icons   map[int]*winres.Icon
	cursors map[int]*winres.Cursor
	colors  map[color.NRGBA]int
	plain   bool         // do not record pixels
	at      *image.Point // where the bounds of pictures start, if it is decided
}

func newIconWorld(r *run, s *Session, n int) *iconWorld {
	w := &iconWorld{blobs: map[string]Ev{}, icons: map[int]*winres.Icon{}, cursors: map[int]*winres.Cursor{}, colors: map[color.NRGBA]int{}}
	s.add(Ev{"op": "blobs", "b": w.blobs})
	w.world = newWorld(r, s, n)
	return w
}

// blob records what the digest of a resource stands for.
func (w *iconWorld) blob(t winres.Identifier, data []byte) {
	d := digest(data)
	e := w.blobs[d]
	if e == nil {
		e = Ev{"n": len(data), "d": d}
		if len(data) >= 4 {
			e["h"] = ints(data[:4])
			e["rd"] = digest(data[4:])
		}
		w.blobs[d] = e
	}
	if (t == winres.RT_GROUP_ICON || t == winres.RT_GROUP_CURSOR) && len(data) < 5000 {
		e["b"] = ints(data)
	}
}

func (w *iconWorld) setRes(i int, t, r winres.Identifier, l uint16, data []byte) {
	if data != nil {
		w.blob(t, data)
	}
	w.set(i, t, r, l, data)
}

// listing returns everything that is in a set.
func (w *iconWorld) listing(i int) []Ev {
	w.live[i] = map[key]bool{}
	out := []Ev{}
	w.sets[i].Walk(func(t, r winres.Identifier, l uint16, data []byte) bool {
		w.blob(t, data)
		w.live[i][key{t, r, l}] = true
		out = append(out, entry(t, r, l, data))
		return true
	})
	return out
}

// projectIco projects an ICO or CUR file.
func projectIco(b []byte, withDib bool) Ev {
	hdr := len(b)
	if len(b) >= 6 {
		if n := 6 + 16*int(binary.LittleEndian.Uint16(b[4:])); n < hdr {
			hdr = n
		}
	}
	if hdr > 6+16*2000 {
		hdr = 6 + 16*2000
	}
	blocks, refs := []Ev{}, []int{}
	seen := map[[2]int]int{}
	for p := 6; p+16 <= hdr; p += 16 {
		n, o := int(binary.LittleEndian.Uint32(b[p+8:])), int(binary.LittleEndian.Uint32(b[p+12:]))
		if o > len(b) || n > len(b)-o {
			refs = append(refs, 0)
			continue
		}
		if x := seen[[2]int{o, n}]; x > 0 {
			refs = append(refs, x)
			continue
		}
		seen[[2]int{o, n}] = len(blocks) + 1
		refs = append(refs, len(blocks)+1)
		data := b[o : o+n]
		h := data
		if len(h) > 16 {
			h = h[:16]
		}
		_, err := png.DecodeConfig(bytes.NewReader(data))
		blocks = append(blocks, Ev{"o": o, "n": n, "d": digest(data), "h": ints(h), "png": err == nil})
	}
	return Ev{"n": len(b), "hdr": ints(b[:hdr]), "blocks": blocks, "refs": refs}
}

func (w *iconWorld) has(k, i int) bool {
	if k == 1 {
		return w.icons[i] != nil
	}
	return w.cursors[i] != nil
}

// loadFile loads an ICO or CUR file.
func (w *iconWorld) loadFile(g *rand.Rand, k, i int, b []byte) bool {
	var (
		err error
		ico *winres.Icon
		cur *winres.Cursor
	)
	if w.dead {
		return false
	}
	var rd io.ReadSeeker = bytes.NewReader(b)
	switch g.Intn(3) {
	case 0:
		rd = onlyRS{chunkReader{bytes.NewReader(b), 1 + g.Intn(50)}}
	}
	if !w.do("loadfile", func() {
		if k == 1 {
			ico, err = winres.LoadICO(rd)
		} else {
			cur, err = winres.LoadCUR(rd)
		}
	}) {
		return false
	}
	if err == nil {
		if k == 1 {
			w.icons[i] = ico
		} else {
			w.cursors[i] = cur
		}
	}
	if err == nil && !w.has(k, i) {
		w.nothing("loadfile")
		return false
	}
	w.s.add(Ev{"op": "loadfile", "k": k, "i": i, "err": err != nil, "file": projectIco(b, false)})
	return err == nil
}

func (w *iconWorld) saved(k, i int) ([]byte, error) {
	buf := &bytes.Buffer{}
	var err error
	if k == 1 {
		err = w.icons[i].SaveICO(buf)
	} else {
		err = w.cursors[i].SaveCUR(buf)
	}
	return buf.Bytes(), err
}

// save saves an icon or a cursor.
func (w *iconWorld) save(k, i int) []byte {
	if w.dead || !w.has(k, i) {
		return nil
	}
	var (
		b   []byte
		err error
	)
	if !w.do("save", func() { b, err = w.saved(k, i) }) {
		return nil
	}
	w.s.add(Ev{"op": "save", "k": k, "i": i, "err": err != nil, "file": projectIco(b, false)})
	return b
}

// setGroup adds an icon or a cursor to a set. A negative language means none.
func (w *iconWorld) setGroup(k, s int, r winres.Identifier, l int, i int) bool {
	if w.dead || !w.has(k, i) {
		return false
	}
	var (
		err error
		out []Ev
	)
	if !w.do("setgroup", func() {
		switch {
		case k == 1 && l < 0:
			err = w.sets[s].SetIcon(r, w.icons[i])
		case k == 1:
			err = w.sets[s].SetIconTranslation(r, uint16(l), w.icons[i])
		case l < 0:
			err = w.sets[s].SetCursor(r, w.cursors[i])
		default:
			err = w.sets[s].SetCursorTranslation(r, uint16(l), w.cursors[i])
		}
	}) || !w.do("walk", func() { out = w.listing(s) }) {
		return false
	}
	if l < 0 {
		l = 0
	}
	w.s.add(Ev{"op": "setgroup", "k": k, "s": s + 1, "r": encIdent(r), "l": l, "i": i, "err": err != nil, "out": out})
	return err == nil
}

// getGroup extracts an icon or a cursor, and saves it.
func (w *iconWorld) getGroup(k, s int, r winres.Identifier, l int, i int) bool {
	if w.dead {
		return false
	}
	var (
		err error
		ico *winres.Icon
		cur *winres.Cursor
	)
	if !w.do("getgroup", func() {
		switch {
		case k == 1 && l < 0:
			ico, err = w.sets[s].GetIcon(r)
		case k == 1:
			ico, err = w.sets[s].GetIconTranslation(r, uint16(l))
		case l < 0:
			cur, err = w.sets[s].GetCursor(r)
		default:
			cur, err = w.sets[s].GetCursorTranslation(r, uint16(l))
		}
	}) {
		return false
	}
	if err == nil {
		if k == 1 {
			w.icons[i] = ico
		} else {
			w.cursors[i] = cur
		}
	}
	if err == nil && !w.has(k, i) {
		w.nothing("getgroup")
		return false
	}
	w.s.add(Ev{"op": "getgroup", "k": k, "s": s + 1, "r": encIdent(r), "l": l, "i": i, "err": err != nil})
	if err == nil {
		w.save(k, i)
	}
	return err == nil
}

func le16(b []byte, o int, v int) { binary.LittleEndian.PutUint16(b[o:], uint16(v)) }
func le32(b []byte, o int, v int) { binary.LittleEndian.PutUint32(b[o:], uint32(v)) }

// dib makes something that looks like a DIB.
func dib(g *rand.Rand, bc int, n int) []byte {
	if n < 16 {
		n = 16
	}
	b := randBytes(g, n)
	le32(b, 0, []int{40, 40, 108, 124}[g.Intn(4)])
	le16(b, 12, []int{1, 1, 0, 3}[g.Intn(4)])
	le16(b, 14, bc)
	return b
}

var tinyPNGs = func() [][]byte {
	var all [][]byte
	for _, n := range []int{1, 3} {
		buf := &bytes.Buffer{}
		m := image.NewNRGBA(image.Rect(0, 0, n, n))
		m.Set(0, 0, color.NRGBA{1, 2, 3, 4})
		png.Encode(buf, m)
		all = append(all, buf.Bytes())
	}
	return all
}()

var imgDims = []int{0, 0, 1, 2, 16, 16, 24, 32, 32, 48, 64, 127, 128, 129, 255}
var imgDepths = []int{1, 4, 8, 16, 24, 32, 32, 24}

// imgData makes the data of an image.
func imgData(g *rand.Rand, k int) []byte {
	n := []int{0, 1, 3, 4, 15, 16, 17, 40, 41, 100, 257}[g.Intn(11)]
	if g.Intn(60) == 0 {
		n = 66000 + g.Intn(9)
	}
	if g.Intn(5) == 0 {
		return tinyPNGs[g.Intn(2)]
	}
	if k == 2 || g.Intn(2) == 0 {
		return dib(g, imgDepths[g.Intn(len(imgDepths))], n)
	}
	return randBytes(g, n)
}

// icoFile makes an ICO or CUR file of n images.
func icoFile(g *rand.Rand, k, n int) []byte {
	type im struct {
		e    [16]byte
		data []byte
	}
	var ims []im
	for i := 0; i < n; i++ {
		m := im{data: imgData(g, k)}
		if i > 0 && g.Intn(6) == 0 {
			m.data = ims[0].data
		}
		w := imgDims[g.Intn(len(imgDims))]
		m.e[0], m.e[1] = byte(w), byte(w)
		if g.Intn(4) == 0 {
			m.e[1] = byte(imgDims[g.Intn(len(imgDims))])
		}
		if k == 1 {
			m.e[2] = []byte{0, 0, 2, 16, 255}[g.Intn(5)]
			le16(m.e[:], 4, []int{0, 1, 1, 2}[g.Intn(4)])
			le16(m.e[:], 6, imgDepths[g.Intn(len(imgDepths))])
		} else {
			m.e[2] = []byte{0, 0, 2}[g.Intn(3)]
			le16(m.e[:], 4, []int{0, 1, 15, 255, 256, 0xFFFF}[g.Intn(6)])
			le16(m.e[:], 6, []int{0, 1, 15, 255, 256, 0xFFFF}[g.Intn(6)])
		}
		le32(m.e[:], 8, len(m.data))
		ims = append(ims, m)
	}
	b := make([]byte, 6+16*n)
	le16(b, 2, k)
	le16(b, 4, n)
	style := g.Intn(4)
	for _, i := range g.Perm(n) {
		if style == 0 { // the usual order
			break
		}
		if style > 1 {
			b = append(b, randBytes(g, g.Intn(20))...)
		}
		if style == 3 { // sharing, possibly overlapping
			if at := bytes.Index(b, ims[i].data); at >= 0 && len(ims[i].data) > 0 {
				le32(ims[i].e[:], 12, at)
				continue
			}
		}
		le32(ims[i].e[:], 12, len(b))
		b = append(b, ims[i].data...)
	}
	if style == 0 {
		for i := range ims {
			le32(ims[i].e[:], 12, len(b))
			b = append(b, ims[i].data...)
		}
	}
	for i := range ims {
		copy(b[6+16*i:], ims[i].e[:])
	}
	if style == 3 && k == 1 && n > 1 { // a part of another image
		o, sz := int(binary.LittleEndian.Uint32(b[6+12:])), int(binary.LittleEndian.Uint32(b[6+8:]))
		if sz > 0 {
			x := g.Intn(sz)
			le32(b, 6+16+12, o+x)
			le32(b, 6+16+8, 1+g.Intn(sz-x))
		}
	}
	if g.Intn(3) == 0 {
		b = append(b, randBytes(g, g.Intn(30))...)
	}
	return b
}

// groupData makes a group resource of entries that refer to images.
func groupData(g *rand.Rand, k int, ids []int) []byte {
	b := make([]byte, 6+14*len(ids))
	le16(b, 2, k)
	le16(b, 4, len(ids))
	for i, id := range ids {
		e := b[6+14*i:]
		if k == 1 {
			w := imgDims[g.Intn(len(imgDims))]
			e[0], e[1], e[2] = byte(w), byte(w), byte(g.Intn(3))
		} else {
			w := 1 + g.Intn(256)
			le16(e, 0, w)
			le16(e, 2, w)
		}
		le16(e, 4, 1)
		le16(e, 6, imgDepths[g.Intn(len(imgDepths))])
		le32(e, 8, g.Intn(1000))
		le16(e, 12, id)
	}
	return b
}

// userLang returns a language users may give to their own images.
func userLang(g *rand.Rand) uint16 {
	return []uint16{0, 0, 0, 0, 1, 0x400, 0x409, 0x409, 0x40C, 0x804, 0x7FFF, 0x8000, 0xFFFF}[g.Intn(13)]
}

// clear deletes every resource of a type.
func (w *iconWorld) clear(set int, t winres.ID) {
	var all []key
	if !w.do("walktype", func() {
		w.sets[set].WalkType(t, func(r winres.Identifier, l uint16, _ []byte) bool {
			all = append(all, key{t, r, l})
			return len(all) < 100
		})
	}) {
		return
	}
	for _, x := range all {
		w.setRes(set, x.t, x.r, x.l, nil)
	}
}

type allocCase struct {
	Ops [][]interface{} `json:"ops"`
}

func genGroups(r *run, k int) {
	exeSrc := simplePE(rand.New(rand.NewSource(1)))
	// behaviours of IconAlloc
	r.readCases(func(n int, raw json.RawMessage) {
		var c allocCase
		if err := json.Unmarshal(raw, &c); err != nil {
			panic(err)
		}
		for base := 0; base < 2; base++ {
			if base == 1 && n%2 == 1 && !r.thorough() {
				continue
			}
			g := rand.New(rand.NewSource(int64(n)*2 + int64(base)))
			s := r.begin("alloc-%d-%d", n, base)
			w := newIconWorld(r, s, 1)
			ofs := 0
			given := map[winres.ID]uint16{} // languages of users' images
			if base == 1 {
				ofs = 0xFFFF - 5
				w.setRes(0, imageType[k], winres.ID(ofs), 0, []byte("edge data"))
			}
			var gk = map[string]key{
				"a": {groupType[k], winres.Name("A"), []uint16{0, 0x409}[n%2]},
				"b": {groupType[k], []winres.Identifier{winres.Name("A"), winres.ID(1)}[n/2%2], 0x40C},
			}
			for i, op := range c.Ops {
				switch op[0] {
				case "set", "full":
					if w.loadFile(g, k, i+1, icoFile(g, k, int(op[2].(float64)))) {
						x := gk[op[1].(string)]
						w.setGroup(k, 0, x.r, int(x.l), i+1)
					}
				case "userset":
					id := winres.ID(ofs + int(op[1].(float64)))
					if given[id] == 0 {
						given[id] = userLang(g)
					}
					w.setRes(0, imageType[k], id, given[id], dib(g, 32, 20))
				case "userdel":
					id := winres.ID(ofs + int(op[1].(float64)))
					w.setRes(0, imageType[k], id, 0, nil)
					if given[id] != 0 {
						w.setRes(0, imageType[k], id, given[id], nil)
					}
				case "delgroup":
					x := gk[op[1].(string)]
					w.setRes(0, groupType[k], x.r, x.l, nil)
				case "reload":
					w.reload(0, 0, exeSrc)
				}
				for _, x := range []string{"a", "b"} {
					w.getGroup(k, 0, gk[x].r, int(gk[x].l), 50)
				}
			}
			r.end(s)
		}
	})

	// groups written by hand, whose images are of any size
	for n := r.pick(60, 600); n > 0; n-- {
		g := rand.New(rand.NewSource(r.rng.Int63()))
		s := r.begin("hand-%d", n)
		w := newIconWorld(r, s, 1)
		ids := []int{1, 2, 3, 5, 9}[:1+g.Intn(5)]
		w.setRes(0, groupType[k], winres.ID(7), 0, groupData(g, k, ids))
		for _, id := range ids {
			w.setRes(0, imageType[k], winres.ID(id), 0, [][]byte{{1, 2, 3, 4}, {1, 2, 3, 4, 5}, dib(g, 24, 40), dib(g, 8, 17)}[g.Intn(4)])
		}
		w.getGroup(k, 0, winres.ID(7), -1, 1)
		id := winres.ID(ids[g.Intn(len(ids))])
		w.setRes(0, imageType[k], id, []uint16{0, 0, 5}[g.Intn(3)], [][]byte{{}, {1}, {1, 2, 3}, {1, 2, 3, 4}, nil}[g.Intn(5)])
		w.getGroup(k, 0, winres.ID(7), 0, 1)
		w.setGroup(k, 0, winres.ID(8), 0, 1)
		w.getGroup(k, 0, winres.ID(8), 0, 2)
		r.end(s)
	}
	// more images, and larger ones, than small integers can count
	for n := r.pick(4, 24); n > 0; n-- {
		g := rand.New(rand.NewSource(r.rng.Int63()))
		s := r.begin("bulky-%d", n)
		w := newIconWorld(r, s, 1)
		w.plain = true
		ok := false
		if n%4 == 0 {
			ok = w.loadFile(g, k, 1, icoFile(g, k, 256+g.Intn(50)))
		} else {
			d := [][2]int{{256, 256}, {128, 128}, {129, 129}, {200, 256}, {256, 1}, {16, 16}}
			ok = w.newIcon(g, k, 1, d[:2+g.Intn(5)])
		}
		if ok {
			w.setGroup(k, 0, winres.Name("BULKY"), 0x409, 1)
			w.getGroup(k, 0, winres.Name("BULKY"), -1, 2)
			w.reload(0, 0, exeSrc)
			w.getGroup(k, 0, winres.Name("BULKY"), 0x409, 3)
			w.setGroup(k, 0, winres.Name("AGAIN"), 0, 3)
			w.getGroup(k, 0, winres.Name("AGAIN"), -1, 4)
		}
		r.end(s)
	}

	for n := r.pick(500, 4000); n > 0; n-- {
		g := rand.New(rand.NewSource(r.rng.Int63()))
		s := r.begin("groups-%d", n)
		w := newIconWorld(r, s, 2)
		p := newPool(g, 1, 2+g.Intn(2), 1+g.Intn(3))
		p.ress = append(p.ress, winres.ID(1))
		// users' own images, at the ordinals where counters turn
		switch v := 1 << uint(7+g.Intn(9)); g.Intn(6) {
		case 0:
			for _, id := range []int{v - 1, v, v + 1}[:1+g.Intn(3)] {
				w.setRes(0, imageType[k], winres.ID(id), userLang(g), []byte("user"))
			}
		case 1:
			w.setRes(0, imageType[k], winres.ID(0x8000), 0, []byte("user"))
			w.setRes(0, imageType[k], winres.ID(0x7FFF-g.Intn(2)), 0, []byte("user"))
		}
		for ops := 4 + g.Intn(14); ops > 0; ops-- {
			x := p.key(g)
			lang := int(x.l)
			if g.Intn(4) == 0 {
				lang = -1
			}
			slot := 1 + g.Intn(4)
			kk := k
			if g.Intn(5) == 0 {
				kk = 3 - k
			}
			var res winres.Identifier = x.r
			if g.Intn(15) == 0 {
				res = invalidIdent(g)
			}
			set := g.Intn(5) / 4
			switch g.Intn(14) {
			case 0, 1:
				w.loadFile(g, kk, slot+10*kk, icoFile(g, kk, []int{0, 1, 1, 2, 3, 4, 9, 20}[g.Intn(8)]))
			case 2, 3, 4, 5:
				if !w.has(kk, slot+10*kk) {
					w.loadFile(g, kk, slot+10*kk, icoFile(g, kk, 1+g.Intn(4)))
				}
				w.setGroup(kk, set, res, lang, slot+10*kk)
			case 6, 7, 8:
				w.getGroup(kk, set, res, lang, slot+10*kk)
			case 9: // users' own images and groups
				w.setRes(set, imageType[kk], winres.ID([]int{1, 2, 3, 1, 2, 3, 5, 9, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFF0, 0xFFFE, 0xFFFF}[g.Intn(15)]), userLang(g),
					[][]byte{{}, {1}, {1, 2, 3}, {1, 2, 3, 4}, {1, 2, 3, 4}, {1, 2, 3, 4, 5}, dib(g, 24, 40), dib(g, 8, 17)}[g.Intn(8)])
			case 10:
				ids := []int{1, 2, 3, 5, 9}[:1+g.Intn(5)]
				b := groupData(g, kk, ids)
				switch g.Intn(6) {
				case 0:
					b = b[:g.Intn(len(b)+1)]
				case 1:
					b[[]int{0, 2, 2, 4, 5}[g.Intn(5)]]++
				case 2:
					b = append(b, randBytes(g, 1+g.Intn(20))...)
				case 3:
					le16(b, 2, 3-kk)
				}
				w.setRes(set, groupType[kk], x.r, x.l, b)
			case 11:
				if g.Intn(4) == 0 { // nothing of a type is left
					w.clear(set, imageType[kk])
				} else if y, ok := w.randLive(g, set); ok {
					w.setRes(set, y.t, y.r, y.l, nil)
				}
			case 12:
				w.setRes(set, x.t, x.r, x.l, randBytes(g, g.Intn(9)))
			case 13:
				if g.Intn(2) == 0 {
					w.reload(set, set, exeSrc)
				} else {
					w.save(kk, slot+10*kk)
				}
			}
		}
		for set := 0; set < 2; set++ {
			for _, y := range w.liveKeys(set) {
				if y.t == groupType[k] {
					w.getGroup(k, set, y.r, int(y.l), 99)
				}
			}
		}
		for _, x := range p.ress {
			w.getGroup(k, 0, x, -1, 99)
		}
		r.end(s)
	}
}

func genIcoFiles(r *run) {
	for n := r.pick(800, 6000); n > 0; n-- {
		g := rand.New(rand.NewSource(r.rng.Int63()))
		s := r.begin("file-%d", n)
		w := newIconWorld(r, s, 1)
		k := 1 + n%2
		count := []int{0, 1, 1, 2, 3, 4, 5, 8}[g.Intn(8)]
		if n%50 < 2 {
			count = 256 + g.Intn(60)
		}
		b := icoFile(g, k, count)
		// again and again
		for j := 0; j < 3; j++ {
			if !w.loadFile(g, k, 1, b) {
				break
			}
			b = w.save(k, 1)
			if j == 1 && w.setGroup(k, 0, winres.ID(1), 0x409, 1) && w.getGroup(k, 0, winres.ID(1), -1, 1) {
				b = w.save(k, 1)
			}
		}
		w.loadFile(g, 3-k, 2, b)
		r.end(s)

		s = r.begin("bad-%d", n)
		w = newIconWorld(r, s, 1)
		b = icoFile(g, k, 1+g.Intn(3))
		for j := 0; j < 6; j++ {
			c := append([]byte(nil), b...)
			i := 6 + 16*g.Intn(int(c[4]))
			switch g.Intn(8) {
			case 0:
				c[[]int{0, 1, 2, 3, 4, 5}[g.Intn(6)]] ^= byte(1 << uint(g.Intn(8)))
			case 1:
				le32(c, i+8, len(c)+g.Intn(3)-int(binary.LittleEndian.Uint32(c[i+12:])))
			case 2:
				le32(c, i+12, len(c)-int(binary.LittleEndian.Uint32(c[i+8:]))+g.Intn(3)-1)
			case 3:
				le32(c, i+[]int{8, 12}[g.Intn(2)], []int{0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0xA00000, 0xA00001, 0xFFFFFFF0}[g.Intn(6)])
			case 4:
				c = c[:g.Intn(len(c))]
			case 5:
				if o := int(binary.LittleEndian.Uint32(c[i+12:])); o+4 < len(c) {
					le32(c, o, []int{0, 40, 41, 0x10028, 0x80000028, 0x474E5089, 39}[g.Intn(7)])
				}
			case 6:
				le32(c, i+8, []int{0, 1, 15, 16}[g.Intn(4)])
			default:
				c[6+g.Intn(16*int(b[4]))] ^= byte(1 << uint(g.Intn(8)))
			}
			if w.loadFile(g, k, 1, c) {
				w.save(k, 1)
			}
		}
		r.end(s)
	}
	// Every prefix of a file
	for n := r.pick(6, 40); n > 0; n-- {
		g := rand.New(rand.NewSource(r.rng.Int63()))
		s := r.begin("prefix-%d", n)
		w := newIconWorld(r, s, 1)
		b := icoFile(g, 1+n%2, 1+g.Intn(3))
		if len(b) > 600 {
			r.end(s)
			continue
		}
		for j := 0; j <= len(b); j++ {
			w.loadFile(g, 1+n%2, 1, b[:j])
		}
		w.save(1+n%2, 1)
		r.end(s)
	}
	// The largest images
	for i, sz := range []int{0xA00000, 0xA00001, 0xA00000 - 1} {
		for k := 1; k < 3; k++ {
			g := rand.New(rand.NewSource(int64(i)))
			s := r.begin("large-%d-%d", i, k)
			w := newIconWorld(r, s, 1)
			b := make([]byte, 22+sz)
			le16(b, 2, k)
			le16(b, 4, 1)
			le32(b, 6+8, sz)
			le32(b, 6+12, 22)
			copy(b[22:], dib(g, 32, 40))
			var (
				err error
				ico *winres.Icon
				cur *winres.Cursor
			)
			if w.do("loadfile", func() {
				if k == 1 {
					ico, err = winres.LoadICO(bytes.NewReader(b))
				} else {
					cur, err = winres.LoadCUR(bytes.NewReader(b))
				}
			}) {
				if err == nil {
					w.icons[1], w.cursors[1] = ico, cur
				}
				s.add(Ev{"op": "loadfile", "k": k, "i": 1, "err": err != nil, "file": projectIco(b, false)})
				if err == nil {
					w.save(k, 1)
				}
			}
			r.end(s)
		}
	}
}

// wrapped is an image of a type that no package knows.
type wrapped struct{ image.Image }

// randImage makes an image of any type, w pixels large and h high.
func randImage(g *rand.Rand, w, h int) (image.Image, string) {
	x0, y0 := 0, 0
	if g.Intn(2) == 0 {
		x0, y0 = g.Intn(40)-20, g.Intn(40)-20
	}
	return randImageAt(g, x0, y0, w, h)
}

func randImageAt(g *rand.Rand, x0, y0, w, h int) (image.Image, string) {
	rect := image.Rect(x0, y0, x0+w, y0+h)
	big := image.Rect(x0-g.Intn(3), y0-g.Intn(3), x0+w+g.Intn(3), y0+h+g.Intn(3))
	if g.Intn(2) == 0 {
		big = rect
	}
	if w == 0 || h == 0 {
		return image.NewNRGBA(rect), "empty"
	}
	few := []color.NRGBA{{}, {255, 0, 0, 255}, {0, 255, 0, 128}, {1, 2, 3, 4}, {0, 0, 0, 255}, {255, 255, 255, 255}, {9, 8, 7, 0}}
	opaque := g.Intn(3) == 0
	pick := func() color.NRGBA {
		c := few[g.Intn(len(few))]
		if g.Intn(3) == 0 {
			c = color.NRGBA{byte(g.Intn(256)), byte(g.Intn(256)), byte(g.Intn(256)), byte(g.Intn(256))}
		}
		if opaque {
			c.A = 255
		}
		return c
	}
	fill := func(m interface {
		Set(x, y int, c color.Color)
		Bounds() image.Rectangle
	}) {
		b := m.Bounds()
		for y := b.Min.Y; y < b.Max.Y; y++ {
			for x := b.Min.X; x < b.Max.X; x++ {
				m.Set(x, y, pick())
			}
		}
	}
	switch g.Intn(11) {
	case 0, 1:
		m := image.NewNRGBA(big)
		fill(m)
		return m.SubImage(rect), "nrgba"
	case 2:
		m := image.NewRGBA(big)
		fill(m)
		return m.SubImage(rect), "rgba"
	case 3:
		m := image.NewGray(big)
		fill(m)
		return m.SubImage(rect), "gray"
	case 4:
		pal := color.Palette{}
		for i := 0; i < 1+g.Intn(9); i++ {
			pal = append(pal, pick())
		}
		m := image.NewPaletted(big, pal)
		fill(m)
		return m.SubImage(rect), "paletted"
	case 5:
		m := image.NewNRGBA64(big)
		fill(m)
		return m.SubImage(rect), "nrgba64"
	case 6:
		m := image.NewAlpha(big)
		fill(m)
		return m.SubImage(rect), "alpha"
	case 7:
		m := image.NewYCbCr(big, image.YCbCrSubsampleRatio444)
		g.Read(m.Y)
		g.Read(m.Cb)
		g.Read(m.Cr)
		return m.SubImage(rect), "ycbcr"
	case 8:
		m := image.NewCMYK(big)
		fill(m)
		return m.SubImage(rect), "cmyk"
	case 9:
		m := image.NewNRGBA(big)
		fill(m)
		return wrapped{m.SubImage(rect)}, "wrapped"
	default:
		m := image.NewRGBA64(big)
		fill(m)
		return wrapped{m.SubImage(rect)}, "wrapped64"
	}
}

// pixels gives numbers to colours. Zero is transparent.
func (w *iconWorld) pixel(c color.Color) int {
	n := color.NRGBAModel.Convert(c).(color.NRGBA)
	if n.A == 0 {
		return 0
	}
	if w.colors[n] == 0 {
		w.colors[n] = len(w.colors) + 1
	}
	return w.colors[n]
}

func (w *iconWorld) pixels(m image.Image) []int {
	p := []int{}
	b := m.Bounds()
	for y := b.Min.Y; y < b.Max.Y; y++ {
		for x := b.Min.X; x < b.Max.X; x++ {
			p = append(p, w.pixel(m.At(x, y)))
		}
	}
	return p
}

// visible returns the smallest rectangle that holds everything that is not transparent, and its size.
func visible(m image.Image) []int {
	b := m.Bounds()
	r := image.Rectangle{}
	for y := b.Min.Y; y < b.Max.Y; y++ {
		for x := b.Min.X; x < b.Max.X; x++ {
			if _, _, _, a := m.At(x, y).RGBA(); a > 0 {
				r = r.Union(image.Rect(x, y, x+1, y+1))
			}
		}
	}
	return []int{r.Min.X - b.Min.X, r.Min.Y - b.Min.Y, r.Dx(), r.Dy()}
}

func opaque(m image.Image) bool {
	b := m.Bounds()
	for y := b.Min.Y; y < b.Max.Y; y++ {
		for x := b.Min.X; x < b.Max.X; x++ {
			if _, _, _, a := m.At(x, y).RGBA(); a != 0xFFFF {
				return false
			}
		}
	}
	return true
}

// picture decodes an image of a file.
func (w *iconWorld) picture(k int, file []byte, i int, pix bool) Ev {
	e := Ev{"ok": false, "w": 0, "h": 0, "pix": []int{}, "hx": 0, "hy": 0, "n": 0, "dib": []int{}, "box": []int{0, 0, 0, 0}}
	p := 6 + 16*i
	if p+16 > len(file) {
		return e
	}
	n, o := int(binary.LittleEndian.Uint32(file[p+8:])), int(binary.LittleEndian.Uint32(file[p+12:]))
	if o > len(file) || n > len(file)-o {
		return e
	}
	b := file[o : o+n]
	e["n"] = n
	if k == 1 {
		m, err := png.Decode(bytes.NewReader(b))
		if err != nil {
			return e
		}
		e["ok"], e["w"], e["h"] = true, m.Bounds().Dx(), m.Bounds().Dy()
		e["box"] = visible(m)
		if pix {
			e["pix"] = w.pixels(m)
		}
		return e
	}
	e["hx"], e["hy"] = int(binary.LittleEndian.Uint16(file[p+4:])), int(binary.LittleEndian.Uint16(file[p+6:]))
	if len(b) < 40 {
		return e
	}
	e["dib"] = ints(b[:40])
	width, height, bpp := int(int32(binary.LittleEndian.Uint32(b[4:]))), int(int32(binary.LittleEndian.Uint32(b[8:])))/2, int(binary.LittleEndian.Uint16(b[14:]))
	if width <= 0 || width > 256 || height <= 0 || height > 256 || (bpp != 24 && bpp != 32) {
		return e
	}
	row, mask := (width*bpp+31)/32*4, (width+31)/32*4
	if len(b) < 40+row*height || (bpp == 24 && len(b) < 40+(row+mask)*height) {
		return e
	}
	px := []int{}
	for y := 0; y < height && pix; y++ {
		l := b[40+row*(height-1-y):]
		for x := 0; x < width; x++ {
			c := color.NRGBA{A: 255}
			if bpp == 32 {
				c.B, c.G, c.R, c.A = l[x*4], l[x*4+1], l[x*4+2], l[x*4+3]
			} else {
				c.B, c.G, c.R = l[x*3], l[x*3+1], l[x*3+2]
			}
			if len(b) >= 40+(row+mask)*height && b[40+row*height+mask*(height-1-y)+x/8]&(0x80>>uint(x%8)) != 0 {
				c.A = 0
			}
			px = append(px, w.pixel(c))
		}
	}
	e["ok"], e["w"], e["h"], e["pix"] = true, width, height, px
	return e
}

func (w *iconWorld) pictures(k int, file []byte, pix bool) []Ev {
	out := []Ev{}
	if len(file) < 6 {
		return out
	}
	for i := 0; i < int(binary.LittleEndian.Uint16(file[4:])); i++ {
		out = append(out, w.picture(k, file, i, pix))
	}
	return out
}

func (w *iconWorld) newIcon(g *rand.Rand, k, i int, dims [][2]int) bool {
	srcs := []Ev{}
	var (
		ims  []image.Image
		cims []winres.CursorImage
		err  error
		file []byte
	)
	for _, d := range dims {
		m, kind := randImage(g, d[0], d[1])
		if w.at != nil {
			m, kind = randImageAt(g, w.at.X, w.at.Y, d[0], d[1])
		}
		hot := winres.HotSpot{X: uint16(g.Intn(300)), Y: uint16(g.Intn(300))}
		if g.Intn(10) == 0 {
			hot.X = 0xFFFF
		}
		e := Ev{"w": d[0], "h": d[1], "kind": kind, "hx": int(hot.X), "hy": int(hot.Y), "pix": []int{}}
		if d[0] <= 256 && d[1] <= 256 && !w.plain {
			e["pix"] = w.pixels(m)
		}
		srcs = append(srcs, e)
		ims = append(ims, m)
		cims = append(cims, winres.CursorImage{Image: m, HotSpot: hot})
	}
	if !w.do("newicon", func() {
		var (
			ico *winres.Icon
			cur *winres.Cursor
		)
		if k == 1 {
			ico, err = winres.NewIconFromImages(ims)
		} else {
			cur, err = winres.NewCursorFromImages(cims)
		}
		if err != nil {
			return
		}
		w.icons[i], w.cursors[i] = ico, cur
		var err2 error
		file, err2 = w.saved(k, i)
		if err2 != nil {
			panic(fmt.Sprint("cannot save: ", err2))
		}
	}) {
		return false
	}
	w.s.add(Ev{"op": "newicon", "k": k, "i": i, "srcs": srcs, "err": err != nil, "file": projectIco(file, true), "pics": w.pictures(k, file, !w.plain)})
	return err == nil
}

func (w *iconWorld) resized(g *rand.Rand, i, x, y int, sizes []int) bool {
	m, _ := randImage(g, x, y)
	var (
		err  error
		file []byte
	)
	if !w.do("resized", func() {
		var ico *winres.Icon
		if ico, err = winres.NewIconFromResizedImage(m, sizes); err != nil {
			return
		}
		w.icons[i] = ico
		var err2 error
		if file, err2 = w.saved(1, i); err2 != nil {
			panic(fmt.Sprint("cannot save: ", err2))
		}
	}) {
		return false
	}
	asked := append([]int{}, sizes...)
	if sizes == nil {
		asked = []int{256, 64, 48, 32, 16}
	}
	w.s.add(Ev{"op": "resized", "i": i, "w": x, "h": y, "sizes": asked, "full": opaque(m), "err": err != nil, "file": projectIco(file, true), "pics": w.pictures(1, file, false)})
	return err == nil
}

func genPix(r *run) {
	// Pictures of Squares.tla: every small shape, wherever its bounds are; and very thin ones to resize
	r.readCases(func(n int, raw json.RawMessage) {
		var c struct {
			Kind         string
			W, H, Mx, My int
		}
		if err := json.Unmarshal(raw, &c); err != nil {
			panic(err)
		}
		g := rand.New(rand.NewSource(r.rng.Int63()))
		s := r.begin("square-%d", n)
		w := newIconWorld(r, s, 1)
		if c.Kind == "place" {
			w.at = &image.Point{X: c.Mx, Y: c.My}
			w.newIcon(g, 1, 1, [][2]int{{c.W, c.H}})
			w.newIcon(g, 2, 2, [][2]int{{c.W, c.H}})
		} else {
			w.resized(g, 1, c.W, c.H, []int{c.Mx})
			w.resized(g, 1, c.H, c.W, []int{c.Mx})
		}
		r.end(s)
	})
	for n := r.pick(650, 5000); n > 0; n-- {
		g := rand.New(rand.NewSource(r.rng.Int63()))
		s := r.begin("pix-%d", n)
		w := newIconWorld(r, s, 1)
		k := 1 + n%2
		for j := 0; j < 2; j++ {
			var dims [][2]int
			for c := 1 + g.Intn(3); c > 0; c-- {
				d := [2]int{1 + g.Intn(9), 1 + g.Intn(9)}
				switch g.Intn(4) {
				case 0:
					d[1] = d[0]
				case 1:
					d[0] += 30
				}
				dims = append(dims, d)
			}
			if g.Intn(12) == 0 {
				dims[g.Intn(len(dims))] = [][2]int{{0, 0}, {0, 3}, {4, 0}, {257, 1}, {1, 257}, {300, 300}, {257, 257}}[g.Intn(7)]
			}
			if n%40 < 6 && j == 0 {
				dims = [][2]int{{[]int{256, 256, 255, 128, 129, 1}[g.Intn(6)], []int{256, 256, 255, 128, 1, 127}[g.Intn(6)]}}
			}
			if w.newIcon(g, k, 1, dims) {
				w.setGroup(k, 0, winres.ID(1+g.Intn(3)), g.Intn(2)*0x409, 1)
			}
		}
		r.end(s)
	}
	// The limits of the number of sizes, and of the sizes
	for i, c := range []int{1, 29, 30, 31, 32, 33, 40, 100, 255, 256, 257} {
		g := rand.New(rand.NewSource(int64(i)))
		s := r.begin("sizes-%d", c)
		w := newIconWorld(r, s, 1)
		var sizes []int
		for j := c; j > 0; j-- {
			sizes = append(sizes, 1+g.Intn(20))
		}
		w.resized(g, 1, 5, 3, sizes)
		for _, bad := range []int{0, -1, -255, 257, 258, 512, 65536, 65537, 1 << 32} {
			if bad < 1<<31 || c%2 == 0 {
				w.resized(g, 1, 3, 5, []int{16, bad})
			}
		}
		w.resized(g, 1, 20, 20, []int{c})
		r.end(s)
	}
	for n := r.pick(40, 600); n > 0; n-- {
		g := rand.New(rand.NewSource(r.rng.Int63()))
		s := r.begin("resize-%d", n)
		w := newIconWorld(r, s, 1)
		dim := func() int { return []int{1, 2, 3, 7, 16, 33, 100, 255, 256, 257, 300, 640}[g.Intn(12)] }
		x, y := dim(), dim()
		if g.Intn(4) == 0 {
			y = x
		}
		var sizes []int
		for c := []int{0, 1, 2, 3, 5, 29, 30, 31}[g.Intn(8)]; c > 0; c-- {
			sizes = append(sizes, 1+g.Intn(40))
		}
		if sizes == nil && g.Intn(2) == 0 {
			sizes = []int{}
		}
		if g.Intn(3) == 0 && len(sizes) > 0 {
			sizes[g.Intn(len(sizes))] = []int{255, 256, 257, 1000, 0, -1, 1 << 20, 1, 1}[g.Intn(9)]
		}
		if n%20 == 7 {
			x = 0
		}
		if w.resized(g, 1, x, y, sizes) {
			w.setGroup(1, 0, winres.ID(1), 0, 1)
		}
		r.end(s)
	}
}
