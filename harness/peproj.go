package main

import (
	"encoding/binary"
	"fmt"
	"strings"
)

// projection of a PE image: its structure, with contents replaced by their digests.
// It is made from bytes only, without the code under test.

func clip31(x int64) int {
	if x > 0x7FFFFFFF {
		return 0x7FFFFFFF
	}
	if x < 0 {
		return 0
	}
	return int(x)
}

func u31(x uint32) int { return clip31(int64(x)) }

// rangeDigest is the digest of a part of a file, or a mark if it is out of bounds.
func rangeDigest(b []byte, off, n int64) string {
	if off < 0 || n < 0 || off > int64(len(b)) || n > int64(len(b))-off {
		return "outside"
	}
	return digest(b[off : off+n])
}

var badProj = Ev{"ok": false}

// projectPE returns the projection of an image. words: with its 16-bit words, for the checksum.
func projectPE(b []byte, words bool) Ev {
	le := binary.LittleEndian
	if len(b) < 0x40 || b[0] != 'M' || b[1] != 'Z' {
		return badProj
	}
	lf := int64(le.Uint32(b[0x3C:]))
	if lf+24+2 > int64(len(b)) || string(b[lf:lf+4]) != "PE\x00\x00" {
		return badProj
	}
	fh := b[lf+4:]
	optSize := int64(le.Uint16(fh[16:]))
	nsec := int(le.Uint16(fh[2:]))
	o := b[lf+24:]
	fixed := int64(96)
	switch le.Uint16(o) {
	case 0x10B:
	case 0x20B:
		fixed = 112
	default:
		return badProj
	}
	hdrEnd := lf + 24 + optSize + 40*int64(nsec)
	if optSize < fixed || hdrEnd > int64(len(b)) {
		return badProj
	}
	ndirs := int(le.Uint32(o[fixed-4:]))
	slack := optSize - fixed - int64(ndirs)*8
	if slack < 0 {
		return badProj
	}

	// Headers without what patching may change
	h := append([]byte(nil), b[lf+4:lf+24+optSize]...)
	zero := func(off, n int64) {
		for i := off; i < off+n; i++ {
			h[i] = 0
		}
	}
	zero(2, 2)     // number of sections
	zero(8, 4)     // pointer to symbol table
	zero(20+8, 4)  // size of initialized data
	zero(20+56, 4) // size of image
	zero(20+60, 4) // size of headers
	zero(20+64, 4) // checksum
	zero(20+fixed, 8*int64(ndirs))

	secs := []Ev{}
	s := b[lf+24+optSize:]
	dataEnd := int64(0)
	for i := 0; i < nsec; i++ {
		x := s[40*i : 40*i+40]
		ch := le.Uint32(x[36:])
		ptr, rs := int64(le.Uint32(x[20:])), int64(le.Uint32(x[16:]))
		u := ch&0x80 != 0
		if rs > 0 && !u && ptr+rs > dataEnd {
			dataEnd = ptr + rs
		}
		d := "none"
		if rs > 0 && !u {
			d = rangeDigest(b, ptr, rs)
		}
		secs = append(secs, Ev{
			"name": strings.TrimRight(string(x[:8]), "\x00"),
			"vs":   u31(le.Uint32(x[8:])), "va": u31(le.Uint32(x[12:])),
			"rs": clip31(rs), "ptr": clip31(ptr), "u": u,
			"id": fmt.Sprintf("%x:%x", x[:8], x[24:40]), // name, relocations, line numbers, characteristics
			"d":  d,
		})
	}
	dirs := []Ev{}
	for i := 0; i < ndirs; i++ {
		dirs = append(dirs, Ev{"va": u31(le.Uint32(o[fixed+8*int64(i):])), "size": u31(le.Uint32(o[fixed+8*int64(i)+4:]))})
	}
	p := Ev{
		"ok": true, "size": len(b), "stub": digest(b[:lf+4]), "hdr": digest(h),
		"lfanew": clip31(lf), "hdrEnd": clip31(hdrEnd), "slack": clip31(slack), "nsec": nsec, "secs": secs, "dirs": dirs,
		"sa": u31(le.Uint32(o[32:])), "fa": u31(le.Uint32(o[36:])), "soi": u31(le.Uint32(o[56:])), "soh": u31(le.Uint32(o[60:])), "sid": u31(le.Uint32(o[8:])),
		"sum":   []int{int(le.Uint16(o[64:])), int(le.Uint16(o[66:]))},
		"sumat": clip31(lf + 24 + 64),
		"ovl":   Ev{"start": clip31(dataEnd), "d": rangeDigest(b, dataEnd, int64(len(b))-dataEnd)},
		"cert":  "none", "nocert": "none", "certlast": false, "sym": "none", "certok": false, "symok": false, "symptr": 0, "symn": 0,
		"rsec": []int{}, "rsecsize": 0, "blocks": []int{}, "w": []int{},
	}
	if ndirs > 4 {
		co, cs := int64(le.Uint32(o[fixed+32:])), int64(le.Uint32(o[fixed+36:]))
		if co != 0 {
			p["cert"] = rangeDigest(b, co, cs)
			p["certok"] = p["cert"] != "outside"
			p["certlast"] = co+cs == int64(len(b))
			p["nocert"] = rangeDigest(b, dataEnd, co-dataEnd)
		}
	}
	sp, sn := int64(le.Uint32(fh[8:])), int64(le.Uint32(fh[12:]))
	p["symptr"], p["symn"] = clip31(sp), clip31(sn)
	if sp != 0 && sn != 0 {
		p["sym"] = rangeDigest(b, sp, 18*sn)
		p["symok"] = p["sym"] != "outside"
	}
	if ndirs > 2 {
		rva := int64(le.Uint32(o[fixed+16:]))
		for i := 0; i < nsec && rva != 0; i++ {
			x := s[40*i : 40*i+40]
			if int64(le.Uint32(x[12:])) != rva {
				continue
			}
			ptr, rs := int64(le.Uint32(x[20:])), int64(le.Uint32(x[16:]))
			if ptr+rs <= int64(len(b)) {
				sec := b[ptr : ptr+rs]
				need, blocks := laxDir(sec, uint32(rva))
				p["rsec"] = ints(sec[:need])
				p["rsecsize"] = len(sec)
				p["blocks"] = blocks
			}
			break
		}
	}
	if words {
		w := make([]int, 0, len(b)/2+1)
		for i := 0; i < len(b); i += 2 {
			v := int(b[i])
			if i+1 < len(b) {
				v |= int(b[i+1]) << 8
			}
			w = append(w, v)
		}
		p["w"] = w
	}
	return p
}
