package main

import (
	"encoding/binary"
	"math/rand"
	"sort"
)

// secCfg describes a section of a synthetic PE image.
type secCfg struct {
	Kind  string `json:"k"`   // code, data, bss, empty, rsrc, reloc
	Raw   int    `json:"raw"` // raw size, in file alignment units
	VGap  int    `json:"vgap"`
	VFar  int    `json:"vfar"`  // lowest address
	VPlus int    `json:"vplus"` // virtual size minus raw size (may be negative), ignored for rsrc unless VSet
	VSet  bool   `json:"vset"`
	Order int    `json:"order"` // position in the file
	Name  string `json:"name"`  // instead of the usual name
	Claim int    `json:"claim"` // raw size that uninitialized data claims to have, in file alignment units
	Cut   int    `json:"cut"`   // raw bytes that are missing: not aligned
}

// peCfg describes a synthetic PE image.
type peCfg struct {
	PE64    bool     `json:"pe64"`
	Lfanew  int      `json:"lfanew"`
	Dirs    int      `json:"dirs"`
	FA      int      `json:"fa"`
	SA      int      `json:"sa"`
	Room    int      `json:"room"`   // bytes left after the section table, before rounding
	RawGap  int      `json:"rawgap"` // file alignment units between the headers and the first section
	Secs    []secCfg `json:"secs"`
	Overlay int      `json:"overlay"` // bytes after the last section
	Cert    int      `json:"cert"`    // certificate size, or zero
	CertOdd bool     `json:"certodd"` // certificates not aligned
	CertMid int      `json:"certmid"` // bytes after the certificates
	Sum     bool     `json:"sum"`     // has a checksum
	Sym     string   `json:"sym"`     // "", "overlay", "section": location of a COFF symbol table
	Slack   int      `json:"slack"`   // bytes between the directories and the section table
	Extra   int      `json:"extra"`   // extra raw units in .rsrc
}

func roundUp(x, a int) int { return (x + a - 1) / a * a }

type builtSec struct {
	cfg     secCfg
	name    string
	va, vs  int
	ptr, rs int
	ch      uint32
	data    []byte
}

// build makes an image. rsrc gives the bytes of the resource directory at an address.
func (c peCfg) build(g *rand.Rand, rsrc func(va int) []byte) []byte {
	opt := 96
	if c.PE64 {
		opt = 112
	}
	hdrEnd := c.Lfanew + 4 + 20 + opt + c.Dirs*8 + c.Slack + 40*len(c.Secs)
	sizeOfHeaders := roundUp(hdrEnd+c.Room, c.FA)
	va := roundUp(sizeOfHeaders, c.SA)
	secs := make([]builtSec, len(c.Secs))
	dirs := make([][2]int, c.Dirs)
	for i, s := range c.Secs {
		b := builtSec{cfg: s}
		va += s.VGap * c.SA
		if s.VFar > va {
			va = roundUp(s.VFar, c.SA)
		}
		b.va = va
		b.rs = s.Raw * c.FA
		b.vs = b.rs + s.VPlus
		b.rs -= s.Cut
		switch s.Kind {
		case "code":
			b.name, b.ch = ".text", 0x60000020
		case "data":
			b.name, b.ch = ".data", 0xC0000040
		case "bss":
			b.name, b.ch = ".bss", 0xC0000080
			b.rs = 0
			b.vs = s.Raw*c.FA + 100
		case "empty": // initialized data without raw data
			b.name, b.ch = ".empty", 0xC0000040
			b.rs = 0
			b.vs = s.Raw*c.FA + 60
		case "reloc":
			b.name, b.ch = ".reloc", 0x42000040
		case "rsrc":
			b.name, b.ch = ".rsrc", 0x40000040
			b.data = rsrc(va)
			n := len(b.data)
			b.rs = roundUp(n, c.FA) + c.Extra*c.FA
			b.vs = n
			if s.VSet {
				b.vs = b.rs + s.VPlus
			}
			if c.Dirs > 2 {
				dirs[2] = [2]int{va, n}
			}
		}
		if s.Name != "" {
			b.name = s.Name
		}
		if b.vs < 1 {
			b.vs = 1
		}
		if b.data == nil {
			b.data = randBytes(g, b.rs)
		}
		if len(b.data) < b.rs {
			pad := make([]byte, b.rs-len(b.data))
			if s.Kind == "rsrc" && s.VSet {
				g.Read(pad)
			}
			b.data = append(append([]byte(nil), b.data...), pad...)
		}
		if s.Kind == "reloc" {
			n := b.vs
			if n > b.rs {
				n = b.rs
			}
			if c.Dirs > 5 {
				dirs[5] = [2]int{va, n}
			}
		}
		secs[i] = b
		va += roundUp(b.vs, c.SA)
	}
	sizeOfImage := va
	if len(secs) == 0 {
		sizeOfImage = roundUp(sizeOfHeaders, c.SA)
	}

	// raw positions
	idx := make([]int, len(secs))
	for i := range idx {
		idx[i] = i
	}
	sort.SliceStable(idx, func(i, j int) bool { return secs[idx[i]].cfg.Order < secs[idx[j]].cfg.Order })
	ptr := sizeOfHeaders + c.RawGap*c.FA
	for _, i := range idx {
		if secs[i].rs == 0 {
			secs[i].ptr = 0
			if secs[i].cfg.Kind == "bss" && secs[i].cfg.Order%2 == 1 {
				secs[i].ptr = ptr // some linkers write a pointer anyway
			}
			continue
		}
		secs[i].ptr = ptr
		ptr += secs[i].rs
	}
	end := ptr
	file := make([]byte, end)
	overlay := randBytes(g, c.Overlay)
	file = append(file, overlay...)
	if c.Cert > 0 && c.Dirs > 4 {
		for len(file)%8 != 0 && !c.CertOdd {
			file = append(file, 0)
		}
		dirs[4] = [2]int{len(file), c.Cert}
		file = append(file, randBytes(g, c.Cert)...)
		file = append(file, randBytes(g, c.CertMid)...)
	}

	// other directories designate parts of the other sections
	for d := range dirs {
		if d == 2 || d == 4 || d == 5 || d == 11 || len(secs) == 0 || g.Intn(3) == 0 {
			continue
		}
		s := secs[g.Intn(len(secs))]
		if s.cfg.Kind == "rsrc" || s.cfg.Kind == "bss" || s.cfg.Kind == "empty" || s.rs == 0 {
			continue
		}
		n := s.rs
		if s.vs < n {
			n = s.vs
		}
		o := g.Intn(n)
		if g.Intn(4) == 0 {
			o = 0
		}
		dirs[d] = [2]int{s.va + o, 1 + g.Intn(n-o)}
	}

	le := binary.LittleEndian
	g.Read(file[:c.Lfanew])
	file[0], file[1] = 'M', 'Z'
	le.PutUint32(file[0x3C:], uint32(c.Lfanew))
	copy(file[c.Lfanew:], "PE\x00\x00")
	h := file[c.Lfanew+4:]
	ptrSym, numSym := 0, 0
	switch c.Sym {
	case "overlay":
		if c.Overlay >= 20 {
			ptrSym = end + g.Intn(2)*2
			numSym = (c.Overlay - 2) / 18
		}
	case "section":
		var cand []builtSec
		for _, s := range secs {
			if s.cfg.Kind != "rsrc" && s.rs >= 18 {
				cand = append(cand, s)
			}
		}
		if len(cand) > 0 {
			s := cand[g.Intn(len(cand))]
			ptrSym = s.ptr
			numSym = s.rs / 18
		}
	}
	if c.PE64 {
		le.PutUint16(h, 0x8664)
	} else {
		le.PutUint16(h, 0x14C)
	}
	le.PutUint16(h[2:], uint16(len(secs)))
	le.PutUint32(h[4:], g.Uint32()&0x7FFFFFFF)
	le.PutUint32(h[8:], uint32(ptrSym))
	le.PutUint32(h[12:], uint32(numSym))
	le.PutUint16(h[16:], uint16(opt+c.Dirs*8+c.Slack))
	le.PutUint16(h[18:], 0x0102|uint16(g.Intn(2))<<5)
	o := h[20:]
	g.Read(o[:opt])
	if c.PE64 {
		le.PutUint16(o, 0x20B)
		for _, p := range []int{76, 84, 92, 100} {
			_ = p
		}
	} else {
		le.PutUint16(o, 0x10B)
	}
	initialized := g.Intn(2) * g.Intn(100000)
	for _, s := range secs {
		initialized += s.rs
	}
	le.PutUint32(o[8:], uint32(initialized))
	le.PutUint32(o[16:], uint32(sizeOfHeaders))
	le.PutUint32(o[32:], uint32(c.SA))
	le.PutUint32(o[36:], uint32(c.FA))
	le.PutUint32(o[56:], uint32(sizeOfImage))
	le.PutUint32(o[60:], uint32(sizeOfHeaders))
	le.PutUint32(o[64:], 0)
	le.PutUint32(o[opt-4:], uint32(c.Dirs))
	for i, d := range dirs {
		le.PutUint32(o[opt+8*i:], uint32(d[0]))
		le.PutUint32(o[opt+8*i+4:], uint32(d[1]))
	}
	g.Read(o[opt+8*c.Dirs:][:c.Slack])
	sh := o[opt+8*c.Dirs+c.Slack:]
	for i, s := range secs {
		b := sh[40*i:]
		copy(b[:8], s.name)
		le.PutUint32(b[8:], uint32(s.vs))
		le.PutUint32(b[12:], uint32(s.va))
		le.PutUint32(b[16:], uint32(s.rs))
		le.PutUint32(b[20:], uint32(s.ptr))
		le.PutUint32(b[36:], s.ch)
		if s.cfg.Kind == "bss" {
			le.PutUint32(b[16:], uint32(s.cfg.Claim*c.FA))
		}
		copy(file[s.ptr:s.ptr+s.rs], s.data)
	}
	if c.Sum {
		le.PutUint32(o[64:], refChecksum(file, c.Lfanew+4+20+64))
		if le.Uint32(o[64:]) == 0 || g.Intn(3) == 0 {
			le.PutUint32(o[64:], 0x1234+uint32(g.Intn(100))) // wrong, but present
		}
	}
	return file
}

// refChecksum is the standard PE checksum, the checksum field itself counting as zero.
func refChecksum(b []byte, field int) uint32 {
	var sum uint64
	for i := 0; i < len(b); i += 2 {
		if i == field || i == field+2 {
			continue
		}
		w := uint64(b[i])
		if i+1 < len(b) {
			w |= uint64(b[i+1]) << 8
		}
		if field&1 == 1 && (i == field-1 || i == field+1 || i == field+3) {
			// unaligned field
			w = 0
			if i == field-1 {
				w = uint64(b[i])
			}
			if i == field+3 && i+1 < len(b) {
				w = uint64(b[i+1]) << 8
			}
		}
		sum += w
		sum = sum&0xFFFF + sum>>16
	}
	sum = sum&0xFFFF + sum>>16
	return uint32(sum) + uint32(len(b))
}

// simplePE is a plausible small executable without resources, or with some.
func simplePE(g *rand.Rand) []byte {
	c := peCfg{
		PE64: g.Intn(2) == 0, Lfanew: 0x40 + 8*g.Intn(16), Dirs: 16, FA: 0x200, SA: 0x1000, Room: 40,
		Secs: []secCfg{{Kind: "code", Raw: 1}, {Kind: "data", Raw: 1, Order: 1}},
		Sum:  g.Intn(2) == 0,
	}
	return c.build(g, nil)
}
