package main

import (
	"encoding/binary"
	"encoding/json"
	"math/rand"
	"strings"

	"github.com/tc-hib/winres"
)

func init() { families["object"] = genObject }

// laxDir walks a resource directory without judging it. It returns how many bytes of
// the section hold tables, names and data entries, and the digest of every data block.
func laxDir(sec []byte, va uint32) (need int, blocks [][]interface{}) {
	le := binary.LittleEndian
	blocks = [][]interface{}{}
	seen := map[[2]uint32]bool{}
	budget := 400000
	grow := func(n int) {
		if n > need {
			need = n
		}
	}
	var walk func(off, level int)
	walk = func(off, level int) {
		if off < 0 || off+16 > len(sec) || budget <= 0 {
			return
		}
		grow(off + 16)
		n := int(le.Uint16(sec[off+12:])) + int(le.Uint16(sec[off+14:]))
		for i := 0; i < n; i++ {
			p := off + 16 + 8*i
			if p+8 > len(sec) || budget <= 0 {
				return
			}
			budget--
			grow(p + 8)
			id, to := le.Uint32(sec[p:]), le.Uint32(sec[p+4:])
			if id&0x80000000 != 0 {
				o := int(id &^ 0x80000000)
				if o+2 <= len(sec) {
					l := int(le.Uint16(sec[o:]))
					if o+2+2*l <= len(sec) {
						grow(o + 2 + 2*l)
					}
				}
			}
			t := int(to &^ 0x80000000)
			if level < 2 {
				walk(t, level+1)
				continue
			}
			if t+16 > len(sec) {
				continue
			}
			grow(t + 16)
			rva, size := le.Uint32(sec[t:]), le.Uint32(sec[t+4:])
			o := int64(rva) - int64(va)
			if o < 0 || o > int64(len(sec)) || int64(size) > int64(len(sec))-o {
				continue
			}
			k := [2]uint32{uint32(o), size}
			if !seen[k] {
				seen[k] = true
				blocks = append(blocks, []interface{}{int(o), int(size), digest(sec[o : o+int64(size)])})
			}
		}
	}
	walk(0, 0)
	return
}

// coff writes an object and records what it is made of.
func (w *world) coff(i int, arch winres.Arch) {
	buf := &capBuffer{}
	var err error
	if !w.do("coff", func() { err = w.sets[i].WriteObject(buf, arch) }) {
		return
	}
	b := buf.Bytes()
	e := Ev{"op": "coff", "s": i + 1, "arch": string(arch), "err": err != nil, "size": len(b), "bad": true,
		"head": []int{}, "sec": []int{}, "secsize": 0, "tail": []int{}, "blocks": []int{}}
	if err == nil && len(b) >= 60 {
		le := binary.LittleEndian
		size, ptr := int64(le.Uint32(b[36:])), int64(le.Uint32(b[40:]))
		if ptr+size <= int64(len(b)) {
			sec := b[ptr : ptr+size]
			need, blocks := laxDir(sec, 0)
			e["bad"] = false
			e["head"] = ints(b[:60])
			e["sec"] = ints(sec[:need])
			e["secsize"] = len(sec)
			e["tail"] = ints(b[ptr+size:])
			e["blocks"] = blocks
		}
	}
	w.s.add(e)
}

// layoutCase is a resource set generated by RsrcLayout: resources by type, with the class of their data size.
type layoutCase []struct {
	T int `json:"t"`
	R int `json:"r"`
	L int `json:"l"`
	N int `json:"n"`
}

var badArches = []winres.Arch{"", "x86", "AMD64", "386 ", "arm64be", "riscv64", "amd", "i386"}

func genObject(r *run) {
	concrete := [][]winres.Identifier{
		{winres.Name("A"), winres.ID(1), winres.ID(2)},
		{winres.Name("\U0001D11E"), winres.Name("x"), winres.ID(0xFFFF)},
		{winres.Name("AB"), winres.Name("ab"), winres.ID(10)},
	}
	langs := [][]uint16{{0, 0x409}, {0x7FFF, 0xFFFF}, {1, 2}}
	r.readCases(func(i int, raw json.RawMessage) {
		var c layoutCase
		if err := json.Unmarshal(raw, &c); err != nil {
			panic(err)
		}
		s := r.begin("layout-%d", i)
		w := newWorld(r, s, 1)
		g := rand.New(rand.NewSource(int64(i)))
		v := i % len(concrete)
		for _, k := range g.Perm(len(c)) {
			x := c[k]
			w.set(0, concrete[v][x.T], concrete[(v+x.T)%len(concrete)][x.R], langs[v][x.L], w.exact(g, x.N))
		}
		w.coff(0, arches[i%4])
		r.end(s)
	})

	n := r.pick(300, 1600)
	for i := 0; i < n; i++ {
		g := rand.New(rand.NewSource(r.rng.Int63()))
		s := r.begin("obj-%d", i)
		w := newWorld(r, s, 1)
		p := newPool(g, 1+g.Intn(5), 1+g.Intn(6), 1+g.Intn(4))
		if i%8 == 0 {
			w.coff(0, arches[g.Intn(4)])
		}
		for j := g.Intn(40); j > 0; j-- {
			k := p.key(g)
			switch g.Intn(10) {
			case 0, 1:
				if k, ok := w.randLive(g, 0); ok {
					w.set(0, k.t, k.r, k.l, nil)
				}
			case 2:
				w.walk(0, g.Intn(3))
			case 3:
				w.coff(0, arches[g.Intn(4)])
			case 4:
				w.coff(0, badArches[g.Intn(len(badArches))])
			default:
				w.set(0, k.t, k.r, k.l, w.bytes(g, randDataLen(g)))
			}
		}
		for _, a := range arches {
			w.coff(0, a)
		}
		r.end(s)
	}

	// large sets: more entries than 8 bits can count, at every level
	n = r.pick(4, 12)
	for i := 0; i < n; i++ {
		g := rand.New(rand.NewSource(r.rng.Int63()))
		s := r.begin("large-%d", i)
		w := newWorld(r, s, 1)
		m := r.pick(300, 1500) + g.Intn(50)
		var leaves []leaf
		for j := 0; j < m; j++ {
			data := w.bytes(g, g.Intn(12))
			switch i % 4 {
			case 0:
				leaves = append(leaves, leaf{key{winres.ID(10), winres.ID(1 + j*37%0xFFFF), 0}, data})
			case 1:
				leaves = append(leaves, leaf{key{winres.ID(10), winres.Name("N" + string(rune('A'+j%26)) + string(rune('A'+j/26))), 0x409}, data})
			case 2:
				leaves = append(leaves, leaf{key{winres.ID(1 + j), winres.Name("X"), 0x409}, data})
			case 3:
				leaves = append(leaves, leaf{key{winres.Name("T"), winres.ID(3), uint16(j * 41)}, data})
			}
		}
		w.fillSet(0, leaves)
		w.coff(0, arches[i%4])
		r.end(s)
	}

	// more data blocks than fit in 16-bit counts of bytes, here and there
	for i, m := range []int{6600, r.pick(0, 13200)} {
		if m == 0 {
			continue
		}
		s := r.begin("crowd-%d", i)
		w := newWorld(r, s, 1)
		var leaves []leaf
		for j := 0; j < m; j++ {
			leaves = append(leaves, leaf{key{winres.ID(10), winres.ID(1), uint16(j)}, []byte{byte(j)}})
		}
		w.fillSet(0, leaves)
		w.coff(0, arches[i%4])
		r.end(s)
	}

	r.throngs(false, r.limits())

	// big data, long names
	n = r.pick(6, 40)
	for i := 0; i < n; i++ {
		g := rand.New(rand.NewSource(r.rng.Int63()))
		s := r.begin("big-%d", i)
		w := newWorld(r, s, 1)
		for j := 0; j < 4; j++ {
			w.set(0, winres.ID(10), winres.ID(1+j), uint16(g.Intn(3)), randBytes(g, []int{65535, 65536, 65537, 70000, 100000, 1 << 20, 1<<20 + 1}[g.Intn(7)]))
		}
		w.set(0, winres.Name(strings.Repeat("n", []int{255, 256, 257, 1000, 4000}[g.Intn(5)])), randIdent(g), 0, []byte("long name"))
		if i == 0 {
			w.set(0, winres.Name(strings.Repeat("m", r.pick(3000, 40000))), winres.Name(strings.Repeat("\U0001F600", r.pick(1000, 17000))), 0, []byte("very long name"))
		}
		if i == 1 { // more than 24 bits can address
			w.set(0, winres.ID(10), winres.ID(2), 0, randBytes(g, 17<<20))
		}
		w.coff(0, arches[i%4])
		r.end(s)
	}
}
