package main

import (
	"crypto/sha256"
	"fmt"
	"math/rand"
	"strconv"
	"strings"
	"unicode/utf16"

	"github.com/tc-hib/winres"
)

// Identifiers are recorded as integer sequences: an ordinal n is <<1, n>>,
// a name is <<0, code points...>>, so that their lexicographic order is the canonical order.
func encIdent(id winres.Identifier) []int {
	switch id := id.(type) {
	case winres.ID:
		return []int{1, int(id)}
	case winres.Name:
		a := []int{0}
		for _, c := range string(id) {
			a = append(a, int(c))
		}
		return a
	}
	return []int{-1}
}

func decIdent(a []int) winres.Identifier {
	if a[0] == 1 {
		return winres.ID(a[1])
	}
	b := strings.Builder{}
	for _, c := range a[1:] {
		b.WriteRune(rune(c))
	}
	return winres.Name(b.String())
}

func utf16Len(s string) int { return len(utf16.Encode([]rune(s))) }

// digest identifies a content: its length and a hash.
func digest(b []byte) string {
	h := sha256.Sum256(b)
	return fmt.Sprintf("%d:%x", len(b), h[:8])
}

func ints(b []byte) []int {
	a := make([]int, len(b))
	for i := range b {
		a[i] = int(b[i])
	}
	return a
}

type key struct {
	t, r winres.Identifier
	l    uint16
}

var (
	poolNames = []winres.Name{
		"A", "a", "B", "AB", "ABC", "b", "Z", "_", "É", "é", "\uFFFD", "\U0001D11E", "\U0010FFFF",
		"A\U0001F600", "1", "#1", " ", "10", "MAINICON", "\uE000", "\u00FF", "\u0100", "\uFFFE", "A\u0301",
		"ABCD", "ABCDE", "ABCDEF", "ABCDEFG", "abc", "aBc", "\x01", "\x7f", "\u0080", "A ", "AA",
	}
	poolIDs = []winres.ID{
		1, 2, 3, 4, 5, 10, 11, 12, 13, 14, 15, 16, 24, 127, 128, 255, 256, 257, 1000, 0x7FFE, 0x7FFF, 0x8000, 0x8001, 0xFFFE, 0xFFFF,
		0x0100, 0x0200, 0x4000, 0x1234,
	}
	poolLangs = []uint16{0, 1, 2, 9, 0x400, 0x409, 0x40C, 0x809, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF, 0x100, 0xFF, 0x1004}
)

func randName(g *rand.Rand) winres.Name {
	switch g.Intn(6) {
	case 0:
		n := 1 + g.Intn(12)
		b := strings.Builder{}
		for i := 0; i < n; i++ {
			b.WriteByte(byte('A' + g.Intn(3) + 32*g.Intn(2)))
		}
		return winres.Name(b.String())
	case 1:
		n := 1 + g.Intn(5)
		b := strings.Builder{}
		for i := 0; i < n; i++ {
			c := rune(1 + g.Intn(0x10FFFF))
			if c >= 0xD800 && c < 0xE000 {
				c = 'x'
			}
			b.WriteRune(c)
		}
		return winres.Name(b.String())
	case 2:
		if g.Intn(4) == 0 {
			return winres.Name(strings.Repeat("L", 200+g.Intn(200)))
		}
		fallthrough
	default:
		return poolNames[g.Intn(len(poolNames))]
	}
}

func randID(g *rand.Rand) winres.ID {
	if g.Intn(3) == 0 {
		return winres.ID(1 + g.Intn(0xFFFF))
	}
	return poolIDs[g.Intn(len(poolIDs))]
}

// lookalike returns a different identifier that is easily taken for t.
func lookalike(g *rand.Rand, t winres.Identifier) winres.Identifier {
	switch t := t.(type) {
	case winres.ID:
		switch g.Intn(3) {
		case 0:
			return winres.Name("#" + strconv.Itoa(int(t)))
		case 1:
			return winres.Name(strconv.Itoa(int(t)))
		}
		if t ^= winres.ID(1 << uint(g.Intn(16))); t == 0 {
			t = 3
		}
		return t
	case winres.Name:
		if u := strings.ToLower(string(t)); u != string(t) && g.Intn(3) > 0 {
			return winres.Name(u)
		}
		if u := strings.ToUpper(string(t)); u != string(t) && g.Intn(3) > 0 {
			return winres.Name(u)
		}
		if n, err := strconv.Atoi(strings.TrimPrefix(string(t), "#")); err == nil && n > 0 && n < 0x10000 && g.Intn(2) == 0 {
			return winres.ID(n)
		}
		if r := []rune(string(t)); len(r) > 1 && g.Intn(2) == 0 {
			return winres.Name(string(r[:len(r)-1]))
		}
		return t + "A"
	}
	return t
}

func randIdent(g *rand.Rand) winres.Identifier {
	if g.Intn(5) < 2 {
		return randName(g)
	}
	return randID(g)
}

func randLang(g *rand.Rand) uint16 {
	if g.Intn(4) == 0 {
		return uint16(g.Intn(0x10000))
	}
	return poolLangs[g.Intn(len(poolLangs))]
}

func randBytes(g *rand.Rand, n int) []byte {
	b := make([]byte, n)
	g.Read(b)
	return b
}

// dataSizes are lengths around the alignment of data blocks.
func randDataLen(g *rand.Rand) int {
	switch g.Intn(12) {
	case 0:
		return 0
	case 1, 2, 3:
		return 8*g.Intn(6) + []int{0, 1, 7}[g.Intn(3)]
	case 4:
		return 100 + g.Intn(500)
	case 5:
		return []int{255, 256, 257, 511, 512, 513, 4095, 4096, 4097}[g.Intn(9)]
	}
	return g.Intn(24)
}

func invalidIdent(g *rand.Rand) winres.Identifier {
	return []winres.Identifier{winres.ID(0), winres.Name(""), winres.Name("\x00"), winres.Name("A\x00B"), winres.Name("A\x00"), winres.Name("\x00Z")}[g.Intn(6)]
}

var arches = []winres.Arch{winres.ArchI386, winres.ArchAMD64, winres.ArchARM, winres.ArchARM64}
