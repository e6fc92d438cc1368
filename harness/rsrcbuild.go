package main

import (
	"encoding/binary"
	"math/rand"
	"sort"
	"unicode/utf16"

	"github.com/tc-hib/winres"
)

type leaf struct {
	key
	data []byte
}

// foreignDir lays out a valid resource directory the way another tool could:
// tables, names, data entries and data blocks in any order, shared names and data, any padding.
func foreignDir(g *rand.Rand, leaves []leaf, style int) func(va int) []byte {
	seed := g.Int63()
	return func(va int) []byte {
		return layForeignDir(rand.New(rand.NewSource(seed)), leaves, style, va)
	}
}

type fdTable struct {
	named, ids []*fdEntry
	off        int
}

type fdEntry struct {
	ident winres.Identifier
	sub   *fdTable
	leaf  *fdLeaf
}

type fdLeaf struct {
	data []byte
	off  int // offset of the data entry
	doff int // offset of the data
}

// style 0 is the usual arrangement, higher styles are increasingly unusual.
func layForeignDir(g *rand.Rand, leaves []leaf, style int, va int) []byte {
	leaves = append([]leaf(nil), leaves...)
	keys := make([]key, len(leaves))
	m := map[key][]byte{}
	for i := range leaves {
		keys[i] = leaves[i].key
		m[leaves[i].key] = leaves[i].data
	}
	sortKeys(keys)
	root := &fdTable{}
	var lvl [3][]*fdTable
	lvl[0] = []*fdTable{root}
	var flat []*fdLeaf
	sub := func(t *fdTable, id winres.Identifier, level int) *fdTable {
		list := &t.ids
		if _, ok := id.(winres.Name); ok {
			list = &t.named
		}
		if n := len(*list); n > 0 && (*list)[n-1].ident == id {
			return (*list)[n-1].sub
		}
		s := &fdTable{}
		*list = append(*list, &fdEntry{ident: id, sub: s})
		lvl[level] = append(lvl[level], s)
		return s
	}
	for _, k := range keys {
		lang := sub(sub(root, k.t, 1), k.r, 2)
		l := &fdLeaf{data: m[k]}
		flat = append(flat, l)
		lang.ids = append(lang.ids, &fdEntry{ident: winres.ID(k.l), leaf: l})
	}

	// pieces to place
	type piece struct {
		size, align int
		kind        byte
		place       func(off int)
		write       func(b []byte)
	}
	le := binary.LittleEndian
	names := map[winres.Name]*int{}
	type nameRef struct {
		n winres.Name
		o *int
	}
	nameOf := map[*fdEntry]*int{}
	var nameList []nameRef
	var tables, strs, entries, blocks []piece
	var all []*fdTable
	if style >= 3 { // depth first
		var rec func(t *fdTable)
		rec = func(t *fdTable) {
			all = append(all, t)
			for _, e := range append(append([]*fdEntry{}, t.named...), t.ids...) {
				if e.sub != nil {
					rec(e.sub)
				}
			}
		}
		rec(root)
	} else {
		all = append(append(append(all, lvl[0]...), lvl[1]...), lvl[2]...)
	}
	for _, t := range all {
		t := t
		for _, e := range t.named {
			n := e.ident.(winres.Name)
			if o, ok := names[n]; ok && style != 2 {
				nameOf[e] = o
				continue
			}
			o := new(int)
			names[n] = o
			nameOf[e] = o
			nameList = append(nameList, nameRef{n, o})
		}
		tables = append(tables, piece{kind: 't', size: 16 + 8*(len(t.named)+len(t.ids)), align: 4,
			place: func(off int) { t.off = off },
			write: func(b []byte) {
				if style >= 2 {
					le.PutUint32(b[4:], 0x5F000000+uint32(style))
					le.PutUint16(b[8:], 4)
				}
				le.PutUint16(b[12:], uint16(len(t.named)))
				le.PutUint16(b[14:], uint16(len(t.ids)))
				for i, e := range append(append([]*fdEntry{}, t.named...), t.ids...) {
					p := b[16+8*i:]
					if o := nameOf[e]; o != nil {
						le.PutUint32(p, uint32(*o)|0x80000000)
					} else {
						le.PutUint32(p, uint32(e.ident.(winres.ID)))
					}
					if e.sub != nil {
						le.PutUint32(p[4:], uint32(e.sub.off)|0x80000000)
					} else {
						le.PutUint32(p[4:], uint32(e.leaf.off))
					}
				}
			}})
	}
	for _, r := range nameList {
		r := r
		u := utf16.Encode([]rune(string(r.n)))
		strs = append(strs, piece{kind: 's', size: 2 + 2*len(u), align: 2,
			place: func(off int) { *r.o = off },
			write: func(b []byte) {
				le.PutUint16(b, uint16(len(u)))
				for i, c := range u {
					le.PutUint16(b[2+2*i:], c)
				}
			}})
	}
	blockOf := map[string]*int{}
	type lref struct {
		l *fdLeaf
		o *int
	}
	var lrefs []lref
	dataAlign := []int{8, 4, 1, 1, 16}[style%5]
	for _, l := range flat {
		l := l
		entries = append(entries, piece{kind: 'e', size: 16, align: 4,
			place: func(off int) { l.off = off },
			write: func(b []byte) {
				le.PutUint32(b, uint32(va+l.doff))
				le.PutUint32(b[4:], uint32(len(l.data)))
				if style >= 1 {
					le.PutUint32(b[8:], 1252)
				}
			}})
		if o, ok := blockOf[string(l.data)]; ok && style >= 2 {
			lrefs = append(lrefs, lref{l, o}) // identical data stored once
			continue
		}
		o := new(int)
		blockOf[string(l.data)] = o
		lrefs = append(lrefs, lref{l, o})
		blocks = append(blocks, piece{size: len(l.data), align: dataAlign,
			place: func(off int) { *o = off },
			write: func(b []byte) { copy(b, l.data) }})
	}
	groups := [][]piece{tables[1:], strs, entries, blocks}
	switch style {
	case 0:
	case 1:
		groups = [][]piece{tables[1:], entries, strs, blocks}
	default:
		g.Shuffle(len(groups), func(i, j int) { groups[i], groups[j] = groups[j], groups[i] })
		for _, p := range groups {
			p := p
			g.Shuffle(len(p), func(i, j int) { p[i], p[j] = p[j], p[i] })
		}
		if style >= 4 {
			var mixed []piece
			for _, p := range groups {
				mixed = append(mixed, p...)
			}
			g.Shuffle(len(mixed), func(i, j int) { mixed[i], mixed[j] = mixed[j], mixed[i] })
			groups = [][]piece{mixed}
		}
	}
	// The root comes first
	order := []piece{tables[0]}
	for _, p := range groups {
		order = append(order, p...)
	}
	var offs []int
	off := 0
	gap, gaps := 0, 0
	if style >= 2 && g.Intn(6) == 0 { // offsets that only differ in their high half
		gap, gaps = 0x10000, 1+g.Intn(2)
	}
	for _, p := range order {
		off = roundUp(off, p.align)
		if gaps > 0 && p.kind != 0 && g.Intn(3) == 0 {
			// the same offset as a previous piece of the same kind, 64 KB further
			for j := range offs {
				if order[j].kind == p.kind && offs[j]+gap >= off {
					off = offs[j] + gap
					gaps--
					break
				}
			}
		}
		if style >= 2 && g.Intn(4) == 0 && len(offs) > 0 {
			off = roundUp(off+g.Intn(9), p.align)
		}
		p.place(off)
		offs = append(offs, off)
		off += p.size
	}
	for _, r := range lrefs {
		r.l.doff = *r.o
	}
	b := make([]byte, roundUp(off, 4))
	for i, p := range order {
		p.write(b[offs[i] : offs[i]+p.size])
	}
	return b
}

func (p keyPool) leaves(g *rand.Rand, n int) []leaf {
	m := map[key]bool{}
	var out []leaf
	for i := 0; i < n; i++ {
		k := p.key(g)
		if !m[k] {
			m[k] = true
			data := randBytes(g, randDataLen(g))
			if len(out) > 0 && g.Intn(5) == 0 {
				data = out[g.Intn(len(out))].data
			}
			out = append(out, leaf{k, data})
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return false })
	return out
}
