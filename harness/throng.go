package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"strings"
	"unicode/utf16"

	"github.com/tc-hib/winres"
)

// Sets around the limits of 16-bit counts. All resources have the same type, and their keys and data
// follow from their number, so that a specification can tell them.

type throng struct {
	shape string
	n     int
	at    winres.Identifier // type of the resources
}

func throngByte(i int) byte { return byte(i % 251) }

// key of the resource number i, in canonical order
func (t throng) key(i int) (winres.Identifier, uint16) {
	switch t.shape {
	case "langs":
		return winres.ID(1), uint16(i)
	case "two":
		if i < t.n/2 {
			return winres.ID(1), uint16(i)
		}
		return winres.ID(2), uint16(i - t.n/2)
	case "ids":
		return winres.ID(1 + i), 0
	case "names":
		return winres.Name(fmt.Sprintf("N%06d", i)), 0
	case "long":
		return winres.Name(strings.Repeat("x", t.n)), 0
	case "longpairs": // n units, for n/2 characters
		return winres.Name(strings.Repeat("\U0001F600", t.n/2) + strings.Repeat("x", t.n%2)), 0
	}
	panic(t.shape)
}

func (t throng) count() int {
	if strings.HasPrefix(t.shape, "long") {
		return 1
	}
	return t.n
}

func (t throng) build(g *rand.Rand) (*winres.ResourceSet, error) {
	rs := &winres.ResourceSet{}
	for _, i := range g.Perm(t.count()) {
		r, l := t.key(i)
		if err := rs.Set(t.at, r, l, []byte{throngByte(i)}); err != nil {
			return nil, err
		}
	}
	return rs, nil
}

// number of a resource identifier found in a directory
func (t throng) number(sec []byte, id uint32) int {
	if id&0x80000000 == 0 {
		return clip31(int64(id))
	}
	o := int(id &^ 0x80000000)
	if o+2 > len(sec) {
		return -1
	}
	n := int(binary.LittleEndian.Uint16(sec[o:]))
	if o+2+2*n > len(sec) {
		return -1
	}
	u := make([]uint16, n)
	for i := range u {
		u[i] = binary.LittleEndian.Uint16(sec[o+2+2*i:])
	}
	s := string(utf16.Decode(u))
	if t.shape == "names" {
		k := -1
		fmt.Sscanf(s, "N%06d", &k)
		return k
	}
	if r, _ := t.key(0); string(r.(winres.Name)) == s {
		return n
	}
	return -2
}

// members lists what a directory designates: numbers of resources, languages, sizes, first bytes, positions of entries and of data
func (t throng) members(sec []byte) map[string][]int {
	le := binary.LittleEndian
	out := map[string][]int{"rs": {}, "ls": {}, "ns": {}, "bs": {}, "es": {}, "os": {}}
	each := func(o int, f func(id, to uint32)) {
		if o < 0 || o+16 > len(sec) {
			return
		}
		n := int(le.Uint16(sec[o+12:])) + int(le.Uint16(sec[o+14:]))
		for p := o + 16; n > 0 && p+8 <= len(sec); n-- {
			f(le.Uint32(sec[p:]), le.Uint32(sec[p+4:]))
			p += 8
		}
	}
	each(0, func(_, to uint32) {
		each(int(to&^0x80000000), func(r, to uint32) {
			k := t.number(sec, r)
			each(int(to&^0x80000000), func(l, to uint32) {
				if len(out["es"]) > 200000 || int64(to)+16 > int64(len(sec)) {
					return
				}
				rva, size := le.Uint32(sec[to:]), le.Uint32(sec[to+4:])
				b := -1
				if int64(rva) < int64(len(sec)) {
					b = int(sec[rva])
				}
				for f, v := range map[string]int{"rs": k, "ls": clip31(int64(l)), "ns": clip31(int64(size)), "bs": b, "es": int(to), "os": clip31(int64(rva))} {
					out[f] = append(out[f], v)
				}
			})
		})
	})
	return out
}

func (r *run) throngs(exe bool, list []throng) {
	for i, t := range list {
		g := rand.New(rand.NewSource(r.rng.Int63()))
		t.at = []winres.Identifier{winres.ID(10), winres.Name("TYPE")}[g.Intn(2)]
		s := r.begin("throng-%s-%d", t.shape, t.n)
		var (
			rs  *winres.ResourceSet
			err error
		)
		if !r.call(s, "set", func() { rs, err = t.build(g) }) || err != nil {
			if err != nil {
				s.add(Ev{"op": "refusedset"})
			}
			r.end(s)
			continue
		}
		e := Ev{"op": "throng", "shape": t.shape, "n": t.n, "count": rs.Count()}
		if exe {
			src := simplePE(g)
			buf := &capBuffer{max: 256 << 20}
			var back *winres.ResourceSet
			if !r.call(s, "patch", func() {
				if err = rs.WriteToEXE(buf, bytes.NewReader(src)); err == nil {
					back, _ = winres.LoadFromEXE(bytes.NewReader(buf.Bytes()))
				}
			}) {
				r.end(s)
				continue
			}
			e["op"] = "throngexe"
			e["err"], e["wrote"], e["ok"] = err != nil, buf.Len(), false
			e["secsize"] = 0
			for f, v := range t.members(nil) {
				e[f] = v
			}
			if err == nil && back != nil {
				e["ok"] = true
				n := 0
				list := map[string][]int{"rs": {}, "ls": {}, "ns": {}, "bs": {}}
				back.Walk(func(ty, id winres.Identifier, l uint16, data []byte) bool {
					k, b := -1, -1
					r, _ := t.key(n % t.count())
					switch id := id.(type) {
					case winres.ID:
						k = int(id)
					case winres.Name:
						if t.shape == "names" {
							fmt.Sscanf(string(id), "N%06d", &k)
						} else if id == r {
							k = t.n
						}
					}
					if ty != t.at {
						k = -3
					}
					if len(data) > 0 {
						b = int(data[0])
					}
					for f, v := range map[string]int{"rs": k, "ls": int(l), "ns": len(data), "bs": b} {
						list[f] = append(list[f], v)
					}
					n++
					return true
				})
				for f, v := range list {
					e[f] = v
				}
			}
			s.add(e)
			r.end(s)
			continue
		}
		arch := arches[i%4]
		buf := &capBuffer{max: 256 << 20}
		if !r.call(s, "coff", func() { err = rs.WriteObject(buf, arch) }) {
			r.end(s)
			continue
		}
		b := buf.Bytes()
		e["arch"], e["err"], e["size"], e["bad"] = string(arch), err != nil, len(b), true
		e["head"], e["secsize"], e["rel"], e["kinds"], e["first"], e["end"] = []int{}, 0, []int{}, []int{}, []int{}, []int{}
		for f, v := range t.members(nil) {
			e[f] = v
		}
		if err == nil && len(b) >= 60 {
			le := binary.LittleEndian
			size, ptr, sym := int64(le.Uint32(b[36:])), int64(le.Uint32(b[40:])), int64(le.Uint32(b[8:]))
			e["head"] = ints(b[:60])
			if ptr+size <= sym && sym <= int64(len(b)) {
				e["bad"] = false
				e["secsize"] = int(size)
				for f, v := range t.members(b[ptr : ptr+size]) {
					e[f] = v
				}
				// the addresses of relocations, and what differs from one another in the rest of them
				tab := b[ptr+size : sym]
				if rest := len(tab) % 10; rest != 0 {
					e["bad"] = true
				}
				if len(tab) >= 10 {
					e["first"] = ints(tab[:10])
				}
				rel := []int{}
				kinds := [][]int{}
				seen := map[string]bool{}
				if b[59]&1 != 0 && len(tab) >= 10 {
					tab = tab[10:] // that one is a count
				}
				for ; len(tab) >= 10; tab = tab[10:] {
					rel = append(rel, clip31(int64(le.Uint32(tab))))
					if k := string(tab[4:10]); !seen[k] && len(seen) < 10 {
						seen[k] = true
						kinds = append(kinds, ints(tab[4:10]))
					}
				}
				e["rel"], e["kinds"] = rel, kinds
				e["end"] = ints(b[sym:])
			}
		}
		s.add(e)
		r.end(s)
	}
}

func (r *run) limits() []throng {
	l := []throng{{shape: "langs", n: 65536}, {shape: "two", n: 65536}, {shape: "names", n: 65536}, {shape: "long", n: 65536},
		{shape: "longpairs", n: 65536}, {shape: "long", n: 65535}, {shape: "two", n: 65535}, {shape: "langs", n: 65535}, {shape: "names", n: 65535}}
	if r.tier == "thorough" {
		l = append(l, throng{shape: "ids", n: 65535}, throng{shape: "longpairs", n: 65535},
			throng{shape: "two", n: 70001}, throng{shape: "two", n: 131070}, throng{shape: "names", n: 65537}, throng{shape: "two", n: 65537}, throng{shape: "long", n: 131072})
	}
	return l
}
