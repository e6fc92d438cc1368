package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"
	"unicode/utf8"

	"github.com/tc-hib/winres"
)

func init() {
	families["manifest"] = genManifest
	families["manread"] = genManifestRead
	families["manjson"] = genManifestJSON
}

// points gives the code points of a text. What is not valid UTF-8 becomes 0.
func points(b []byte) []int {
	out := []int{}
	for len(b) > 0 {
		c, n := utf8.DecodeRune(b)
		if c == utf8.RuneError && n <= 1 {
			c = 0
		}
		out = append(out, int(c))
		b = b[n:]
	}
	return out
}

var features = []struct {
	name string
	at   func(m *winres.AppManifest) *bool
	// element of windowsSettings
	ns, el, val string
}{
	{"ui-access", func(m *winres.AppManifest) *bool { return &m.UIAccess }, "", "", ""},
	{"auto-elevate", func(m *winres.AppManifest) *bool { return &m.AutoElevate }, "2005", "autoElevate", "true"},
	{"disable-theming", func(m *winres.AppManifest) *bool { return &m.DisableTheming }, "2005", "disableTheming", "true"},
	{"disable-window-filtering", func(m *winres.AppManifest) *bool { return &m.DisableWindowFiltering }, "2011", "disableWindowFiltering", "true"},
	{"high-resolution-scrolling-aware", func(m *winres.AppManifest) *bool { return &m.HighResolutionScrollingAware }, "2013", "highResolutionScrollingAware", "true"},
	{"ultra-high-resolution-scrolling-aware", func(m *winres.AppManifest) *bool { return &m.UltraHighResolutionScrollingAware }, "2013", "ultraHighResolutionScrollingAware", "true"},
	{"long-path-aware", func(m *winres.AppManifest) *bool { return &m.LongPathAware }, "2016", "longPathAware", "true"},
	{"printer-driver-isolation", func(m *winres.AppManifest) *bool { return &m.PrinterDriverIsolation }, "2011", "printerDriverIsolation", "true"},
	{"gdi-scaling", func(m *winres.AppManifest) *bool { return &m.GDIScaling }, "2017", "gdiScaling", "true"},
	{"segment-heap", func(m *winres.AppManifest) *bool { return &m.SegmentHeap }, "2020", "heapType", "SegmentHeap"},
	{"use-common-controls-v6", func(m *winres.AppManifest) *bool { return &m.UseCommonControlsV6 }, "", "", ""},
}

func projectManifest(m winres.AppManifest) Ev {
	on := []string{}
	for _, f := range features {
		if *f.at(&m) {
			on = append(on, f.name)
		}
	}
	v := m.Identity.Version
	return Ev{
		"name": points([]byte(m.Identity.Name)), "ver": []int{int(v[0]), int(v[1]), int(v[2]), int(v[3])},
		"desc": points([]byte(m.Description)), "os": int(m.Compatibility), "level": int(m.ExecutionLevel), "dpi": int(m.DPIAwareness), "on": on,
	}
}

// manifestEvents sets a manifest, reads it back, and goes through JSON.
func (r *run) manifestEvents(s *Session, m winres.AppManifest) {
	var (
		xml   []byte
		back  winres.AppManifest
		err   error
		again bool
	)
	if !r.call(s, "set", func() {
		xml = manifestOf(m)
		again = bytes.Equal(xml, manifestOf(m))
		back, err = winres.AppManifestFromXML(xml)
	}) {
		return
	}
	s.add(Ev{"op": "set", "m": projectManifest(m), "xml": points(xml), "err": err != nil, "back": projectManifest(back), "again": again})
}

// manifestOf gives the manifest that SetManifest puts in a set, wherever it is.
func manifestOf(m winres.AppManifest) []byte {
	rs := &winres.ResourceSet{}
	rs.SetManifest(m)
	var out []byte
	rs.Walk(func(typeID, resID winres.Identifier, langID uint16, data []byte) bool {
		out = append([]byte{}, data...)
		return true
	})
	return out
}

func (r *run) manifestJSON(s *Session, m winres.AppManifest) {
	var (
		b          []byte
		back       winres.AppManifest
		merr, uerr error
	)
	if !r.call(s, "marshal", func() {
		b, merr = json.Marshal(m)
		if merr == nil {
			uerr = json.Unmarshal(b, &back)
		}
	}) {
		return
	}
	if b == nil {
		b = []byte("{}")
	}
	v := m.Identity.Version
	s.add(Ev{"op": "marshal", "m": projectManifest(m), "merr": merr != nil, "doc": json.RawMessage(b), "uerr": uerr != nil, "back": projectManifest(back),
		"name": m.Identity.Name, "desc": m.Description, "ver": fmt.Sprintf("%d.%d.%d.%d", v[0], v[1], v[2], v[3])})
}

var manTexts = []string{"", "a", "My.Company.App", "x <&> y", "\"quoted\" 'and' more", "]]>", "&amp;", "&#65;", "<!-- no -->", "<![CDATA[x]]>", " blanks  around ", "\ttab", "line\nfeed",
	"car\rriage", "cr\r\nlf", "trailing\n", "\n", "\u00e9t\u00e9", "\u65e5\u672c\u8a9e", "\U0001F600", "\u0085", "\u2028", "\uFFFD", "\uE000", "{{.Name}}", "%s%d", "a=\"b\"", "</description>", "\u00A0", "\U0010FFFF", "-->", "?>", "\\n"}

func randManText(g *rand.Rand) string {
	switch g.Intn(4) {
	case 0:
		return ""
	case 1:
		n := g.Intn(12)
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteRune([]rune{'<', '>', '&', '"', '\'', ';', '#', ' ', '\n', '\t', '\r', 'a', 'Z', '0', ']', '-', '\u00e9', '\u4e2d', '\U0001F4A9', 0xD7FF, 0xE000, 0xFFFD, 0x20, 0x7F, 0x9F}[g.Intn(25)])
		}
		return b.String()
	case 2:
		return manTexts[g.Intn(len(manTexts))] + manTexts[g.Intn(len(manTexts))]
	}
	return manTexts[g.Intn(len(manTexts))]
}

func randManifest(g *rand.Rand) winres.AppManifest {
	m := winres.AppManifest{
		Description:    randManText(g),
		Compatibility:  winres.SupportedOS(g.Intn(5) - 1),
		ExecutionLevel: winres.ExecutionLevel(g.Intn(3)),
		DPIAwareness:   winres.DPIAwareness(g.Intn(4)),
	}
	m.Identity.Name = randManText(g)
	m.Identity.Version = randVer(g)
	p := g.Intn(5)
	for _, f := range features {
		*f.at(&m) = g.Intn(4) < p
	}
	return m
}

func stringOf(cp []int) string {
	r := make([]rune, len(cp))
	for i := range cp {
		r[i] = rune(cp[i])
	}
	return string(r)
}

type manCase struct {
	Name, Desc     []int
	Ver            [4]uint16
	OS, Level, DPI int
	On             []string
}

func (c *manCase) manifest() winres.AppManifest {
	m := winres.AppManifest{Description: stringOf(c.Desc), Compatibility: winres.SupportedOS(c.OS), ExecutionLevel: winres.ExecutionLevel(c.Level), DPIAwareness: winres.DPIAwareness(c.DPI)}
	m.Identity.Name, m.Identity.Version = stringOf(c.Name), c.Ver
	for _, on := range c.On {
		for _, f := range features {
			if f.name == on {
				*f.at(&m) = true
			}
		}
	}
	return m
}

func genManifest(r *run) {
	r.readCases(func(i int, raw json.RawMessage) {
		var c manCase
		if err := json.Unmarshal(raw, &c); err != nil {
			panic(err)
		}
		s := r.begin("spec-%d", i)
		r.manifestEvents(s, c.manifest())
		r.end(s)
	})
	for i, t := range manTexts {
		s := r.begin("text-%d", i)
		m := winres.AppManifest{Description: t}
		r.manifestEvents(s, m)
		m = winres.AppManifest{Identity: winres.AssemblyIdentity{Name: t, Version: [4]uint16{1, 2, 3, 4}}}
		r.manifestEvents(s, m)
		r.end(s)
	}
	for i := 0; i < r.pick(600, 4000); i++ {
		s := r.begin("rand-%d", i)
		for k := 0; k < 2; k++ {
			r.manifestEvents(s, randManifest(r.rng))
		}
		r.end(s)
	}
}

func genManifestJSON(r *run) {
	g := r.rng
	r.readCases(func(i int, raw json.RawMessage) {
		var c manCase
		if err := json.Unmarshal(raw, &c); err != nil {
			panic(err)
		}
		s := r.begin("spec-%d", i)
		r.manifestJSON(s, c.manifest())
		r.end(s)
	})
	for i := 0; i < r.pick(600, 4000); i++ {
		s := r.begin("rand-%d", i)
		m := randManifest(g)
		r.manifestJSON(s, m)
		// values that do not exist
		bad := []int{-2, -1, 3, 4, 5, 100, -1 << 31}[g.Intn(7)]
		switch g.Intn(3) {
		case 0:
			m.Compatibility = winres.SupportedOS(bad)
		case 1:
			m.ExecutionLevel = winres.ExecutionLevel(bad)
		case 2:
			m.DPIAwareness = winres.DPIAwareness(bad)
		}
		r.manifestJSON(s, m)
		r.end(s)
	}
	// every documented spelling, alone
	n := 0
	alone := func(field, text string) {
		s := r.begin("spelling-%d", n)
		n++
		for k := 0; k < 4; k++ {
			r.unmarshalManifest(s, map[string]string{field: dressed(g, text, k)}, nil)
		}
		r.end(s)
	}
	for _, f := range []string{"os", "level", "dpi"} {
		for _, t := range manBad {
			alone(f, t)
		}
		for _, other := range []string{"os", "level", "dpi"} {
			for _, t := range manSpellings[other] {
				alone(f, t)
			}
		}
	}
	for i := 0; i < r.pick(800, 6000); i++ {
		s := r.begin("doc-%d", i)
		f := map[string]string{}
		for _, k := range []string{"os", "level", "dpi"} {
			if g.Intn(3) > 0 {
				t := manSpellings[k][g.Intn(len(manSpellings[k]))]
				f[k] = dressed(g, t, g.Intn(4))
			}
		}
		if g.Intn(4) == 0 {
			k := []string{"os", "level", "dpi"}[g.Intn(3)]
			f[k] = manBad[g.Intn(len(manBad))]
		}
		if g.Intn(2) == 0 {
			f["ver"] = manVersions[g.Intn(len(manVersions))]
		}
		if g.Intn(2) == 0 {
			f["name"] = randManText(g)
		}
		if g.Intn(2) == 0 {
			f["desc"] = randManText(g)
		}
		flags := map[string]bool{}
		for _, x := range features {
			switch g.Intn(3) {
			case 0:
				flags[x.name] = true
			case 1:
				flags[x.name] = false
			}
		}
		r.unmarshalManifest(s, f, flags)
		r.end(s)
	}
}

var manSpellings = map[string][]string{
	"os":    {"vista", "win7", "win8", "win8.1", "win10"},
	"level": {"", "as invoker", "asinvoker", "highest", "highest available", "highestavailable", "administrator", "require administrator", "requireadministrator"},
	"dpi":   {"system", "true", "", "unaware", "false", "per monitor", "permonitor", "true/pm", "per monitor v2", "permonitorv2"},
}

var manBad = []string{"", "-", "win", "vist", "vistaa", "win11", "win 7", "windows 7", "7", "xp", "none", "invoker", "admin", "root", "per monitor v3", "v2", "aware", "yes", "0", "win8.10", "high", "true/pm2", "system,unaware", "null", "win7\u200b"}
var manVersions = []string{"", " ", "0", "1", "1.2", "1.2.3", "1.2.3.4", "65535.65535.65535.65535", " 1.2.3.4\t", "01.002.3.4", "1.2.3.4.5", "65536", "1.65536", "-1", "+1", "1.+2", "1..2", ".", "1.", ".1", "a", "1.a", "1.2.3.4a",
	"0x10", "1_0", "1 .2", "99999999999999999999", "1.2.3.4.", "1,2", "\u0661"}

// dressed changes the case and adds blanks.
func dressed(g *rand.Rand, t string, how int) string {
	b := []byte(t)
	for i := range b {
		if (how == 1 || how == 3 && g.Intn(2) == 0) && b[i] >= 'a' && b[i] <= 'z' {
			b[i] -= 32
		}
	}
	if how >= 2 {
		return []string{" ", "\t", "\n", "  "}[g.Intn(4)] + string(b) + []string{" ", "\r\n", "", "   "}[g.Intn(4)]
	}
	return string(b)
}

func (r *run) unmarshalManifest(s *Session, f map[string]string, flags map[string]bool) {
	doc := map[string]interface{}{}
	id := map[string]string{}
	on := []string{}
	desc := Ev{}
	for k, t := range f {
		desc[k] = points([]byte(t))
		switch k {
		case "os":
			doc["minimum-os"] = t
		case "level":
			doc["execution-level"] = t
		case "dpi":
			doc["dpi-awareness"] = t
		case "desc":
			doc["description"] = t
		case "name":
			id["name"] = t
			doc["identity"] = id
		case "ver":
			id["version"] = t
			doc["identity"] = id
		}
	}
	for _, x := range features {
		v, ok := flags[x.name]
		if ok {
			doc[x.name] = v
		}
		if v {
			on = append(on, x.name)
		}
	}
	desc["on"] = on
	b, err := json.Marshal(doc)
	if err != nil {
		panic(err)
	}
	var m winres.AppManifest
	if !r.call(s, "unmarshal", func() { err = json.Unmarshal(b, &m) }) {
		return
	}
	s.add(Ev{"op": "unmarshal", "f": desc, "err": err != nil, "after": projectManifest(m)})
}

// --- manifests from other tools -------------------------------------------------

type xmlWriter struct {
	g   *rand.Rand
	b   strings.Builder
	eol string
}

func (w *xmlWriter) blank() {
	switch w.g.Intn(6) {
	case 0:
		w.b.WriteString(w.eol + "  ")
	case 1:
		w.b.WriteString(" \t")
	case 2:
		w.b.WriteString("<!-- a comment, <x a='b'> & more -->")
	case 3:
		if w.g.Intn(4) == 0 {
			w.b.WriteString("<?pi some <data> ?>")
		}
	}
}

// text escapes a text in one of many ways.
func (w *xmlWriter) text(s string, attr bool) {
	if !attr && s != "" && !strings.Contains(s, "]]>") && !strings.Contains(s, "\r") && w.g.Intn(5) == 0 {
		w.b.WriteString("<![CDATA[" + s + "]]>")
		return
	}
	for i, c := range s {
		if !attr && i > 0 && w.g.Intn(30) == 0 {
			w.b.WriteString("<!---->")
		}
		switch {
		case c == '&':
			w.b.WriteString([]string{"&amp;", "&#38;", "&#x26;"}[w.g.Intn(3)])
		case c == '<':
			w.b.WriteString([]string{"&lt;", "&#60;", "&#x3c;"}[w.g.Intn(3)])
		case c == '>':
			w.b.WriteString([]string{"&gt;", "&#62;", "&#x3E;"}[w.g.Intn(3)])
		case c == '"':
			w.b.WriteString([]string{"&quot;", "&#34;"}[w.g.Intn(2)])
		case c == '\'':
			w.b.WriteString([]string{"&apos;", "&#039;"}[w.g.Intn(2)])
		case c == '\r' || attr && (c == '\n' || c == '\t'):
			fmt.Fprintf(&w.b, "&#%d;", c)
		case c == '\n' && w.g.Intn(2) == 0:
			w.b.WriteString(w.eol)
		case w.g.Intn(25) == 0:
			fmt.Fprintf(&w.b, "&#x%X;", c)
		default:
			w.b.WriteRune(c)
		}
	}
}

func (w *xmlWriter) attr(name, val string) {
	q := []string{"\"", "'"}[w.g.Intn(2)]
	sp := []string{" ", "  ", w.eol + "\t"}[w.g.Intn(3)]
	eq := []string{"=", "=", " = ", "= "}[w.g.Intn(4)]
	w.b.WriteString(sp + name + eq + q)
	w.text(val, true)
	w.b.WriteString(q)
}

func (w *xmlWriter) endTag() string { return []string{">", ">", " >"}[w.g.Intn(3)] }

func (w *xmlWriter) open(tag string, attrs ...string) {
	w.blank()
	w.b.WriteString("<" + tag)
	for i := 0; i < len(attrs); i += 2 {
		w.attr(attrs[i], attrs[i+1])
	}
	w.b.WriteString(w.endTag())
}

func (w *xmlWriter) close(tag string) {
	w.blank()
	w.b.WriteString("</" + tag + w.endTag())
}

func (w *xmlWriter) empty(tag string, attrs ...string) {
	if w.g.Intn(3) == 0 {
		w.open(tag, attrs...)
		w.b.WriteString("</" + tag + ">")
		return
	}
	w.blank()
	w.b.WriteString("<" + tag)
	for i := 0; i < len(attrs); i += 2 {
		w.attr(attrs[i], attrs[i+1])
	}
	w.b.WriteString([]string{"/>", " />"}[w.g.Intn(2)])
}

// shuffled attributes
func (w *xmlWriter) mixed(attrs ...string) []string {
	out := []string{}
	for _, i := range w.g.Perm(len(attrs) / 2) {
		out = append(out, attrs[2*i], attrs[2*i+1])
	}
	return out
}

// element names of the manifest, with a prefix or with a default namespace
func (w *xmlWriter) ns(uri string) (prefix string, decl []string) {
	if w.g.Intn(3) == 0 {
		p := []string{"asmv1", "a", "ms_asmv3", "x-y.z"}[w.g.Intn(4)]
		return p + ":", []string{"xmlns:" + p, uri}
	}
	return "", []string{"xmlns", uri}
}

func foreignManifest(g *rand.Rand) []byte {
	w := &xmlWriter{g: g, eol: []string{"\n", "\r\n"}[g.Intn(2)]}
	some := func() bool { return g.Intn(4) > 0 }
	if g.Intn(6) == 0 {
		w.b.WriteString("\uFEFF")
	}
	if some() {
		w.b.WriteString([]string{`<?xml version="1.0" encoding="UTF-8" standalone="yes"?>`, `<?xml version='1.0'?>`, `<?xml version="1.0" encoding="utf-8" ?>`, `<?xml version="1.0" standalone='no'?>`}[g.Intn(4)])
		w.blank()
	}
	rp, decl := w.ns("urn:schemas-microsoft-com:asm.v1")
	// inner namespaces are declared where they are used
	w.open(rp+"assembly", w.mixed(append(decl, "manifestVersion", "1.0")...)...)
	val := func(s string) string { return dressed(g, s, g.Intn(4)) }
	boolean := func() string {
		return []string{val("true"), val("false"), val("true"), "", "1", "yes", "truetrue"}[g.Intn(7)]
	}
	sections := []func(){
		func() {
			a := []string{"type", "win32", "processorArchitecture", "*"}
			if some() {
				a = append(a, "name", randManText(g))
			}
			if some() {
				a = append(a, "version", []string{"1.2.3.4", "65535.0.65535.1", "0.0.0.0", "1", "1.2", "10.20.30"}[g.Intn(6)])
			}
			w.empty(rp+"assemblyIdentity", w.mixed(a...)...)
		},
		func() {
			w.blank()
			w.b.WriteString("<" + rp + "description>")
			w.text(randManText(g), false)
			w.b.WriteString("</" + rp + "description>")
		},
		func() {
			p, d := w.ns("urn:schemas-microsoft-com:compatibility.v1")
			w.open(p+"compatibility", d...)
			w.open(p + "application")
			ids := []string{"{e2011457-1546-43c5-a5fe-008deee3d3f0}", "{35138b9a-5d96-4fbd-8e2d-a2440225f93a}", "{4a2f28e3-53b9-4441-ba9c-d69d4a4a6e38}",
				"{1f676c76-80e1-4239-95bb-83d0f6d0da78}", "{8e0f7a12-bfb3-4fe8-b9a5-48fd50a15a9a}"}
			lo := g.Intn(5)
			perm := g.Perm(5)
			more := g.Intn(4) == 0 // systems to come, and the same ones again
			for _, i := range perm {
				for more && g.Intn(2) == 0 {
					w.empty(p+"supportedOS", "Id", []string{"{00000000-bfb3-4fe8-b9a5-48fd50a15a9a}", ids[4], ids[lo+g.Intn(5-lo)]}[g.Intn(3)])
				}
				if i > lo && some() || i == lo {
					w.empty(p+"supportedOS", "Id", val(ids[i]))
				}
			}
			if g.Intn(5) == 0 {
				w.empty(p+"maxversiontested", "Id", "10.0.18362.0")
			}
			w.close(p + "application")
			w.close(p + "compatibility")
		},
		func() {
			p, d := w.ns("urn:schemas-microsoft-com:asm.v3")
			w.open(p+"application", d...)
			w.open(p + "windowsSettings")
			var els []func()
			el := func(ns, name, v string) {
				els = append(els, func() {
					q, d := w.ns("http://schemas.microsoft.com/SMI/" + ns + "/WindowsSettings")
					w.blank()
					w.b.WriteString("<" + q + name)
					for i := 0; i < len(d); i += 2 {
						w.attr(d[i], d[i+1])
					}
					w.b.WriteString(w.endTag())
					w.text(v, false)
					w.b.WriteString("</" + q + name + ">")
				})
			}
			if some() {
				el("2005", "dpiAware", []string{val("true"), val("false"), val("true/pm"), "", "maybe"}[g.Intn(5)])
			}
			if some() {
				n := g.Intn(4)
				var words []string
				for i := 0; i < n; i++ {
					words = append(words, val([]string{"system", "unaware", "PerMonitor", "permonitorv2", "future", ""}[g.Intn(6)]))
				}
				el("2016", "dpiAwareness", strings.Join(words, ","))
			}
			for _, f := range features {
				if f.el != "" && g.Intn(2) == 0 {
					v := boolean()
					if f.name == "segment-heap" {
						v = []string{val("SegmentHeap"), val("segmentheap"), "true", "", "LFH"}[g.Intn(5)]
					}
					el(f.ns, f.el, v)
				}
			}
			if g.Intn(4) == 0 {
				el("2019", "activeCodePage", "UTF-8")
			}
			for _, i := range g.Perm(len(els)) {
				els[i]()
			}
			w.close(p + "windowsSettings")
			w.close(p + "application")
		},
		func() {
			p, d := w.ns([]string{"urn:schemas-microsoft-com:asm.v3", "urn:schemas-microsoft-com:asm.v2"}[g.Intn(2)])
			w.open(p+"trustInfo", d...)
			w.open(p + "security")
			w.open(p + "requestedPrivileges")
			a := []string{}
			if some() {
				a = append(a, "level", val([]string{"asInvoker", "highestAvailable", "requireAdministrator", "other", ""}[g.Intn(5)]))
			}
			if some() {
				a = append(a, "uiAccess", boolean())
			}
			if some() {
				w.empty(p+"requestedExecutionLevel", w.mixed(a...)...)
			}
			w.close(p + "requestedPrivileges")
			w.close(p + "security")
			w.close(p + "trustInfo")
		},
	}
	for n := g.Intn(3); n > 0; n-- {
		sections = append(sections, func() {
			w.open(rp + "dependency")
			w.open(rp + "dependentAssembly")
			name := []string{"Microsoft.Windows.Common-Controls", "microsoft.windows.common-controls", "Other.Assembly", "Microsoft.Windows.GdiPlus"}[g.Intn(4)]
			ver := []string{"6.0.0.0", "6.0.0.0", "5.82.0.0", "60.1.0.0", "6.10"}[g.Intn(5)]
			tok := []string{"6595b64144ccf1df", "6595B64144CCF1DF", "6595b64144ccf1df", "0000000000000000"}[g.Intn(4)]
			w.empty(rp+"assemblyIdentity", w.mixed("type", "win32", "name", name, "version", ver, "processorArchitecture", "*", "publicKeyToken", tok, "language", "*")...)
			w.close(rp + "dependentAssembly")
			w.close(rp + "dependency")
		})
	}
	if g.Intn(4) == 0 {
		sections = append(sections, func() { w.empty(rp+"file", "name", "a.dll", "hash", "00") })
	}
	for _, i := range g.Perm(len(sections)) {
		if g.Intn(8) > 0 {
			sections[i]()
		}
	}
	w.close(rp + "assembly")
	w.blank()
	return []byte(w.b.String())
}

func genManifestRead(r *run) {
	for i := 0; i < r.pick(1400, 8000); i++ {
		s := r.begin("foreign-%d", i)
		b := foreignManifest(r.rng)
		var (
			m   winres.AppManifest
			err error
		)
		if r.call(s, "read", func() { m, err = winres.AppManifestFromXML(b) }) {
			s.add(Ev{"op": "read", "xml": points(b), "err": err != nil, "after": projectManifest(m)})
		}
		r.end(s)
	}
	// manifests that are not what they should be, where every setting is a default
	for i, t := range []string{"<assembly/>", "<a><b/></a>", "<assembly xmlns='urn:schemas-microsoft-com:asm.v1'><compatibility><application/></compatibility></assembly>",
		"<assembly xmlns='urn:schemas-microsoft-com:asm.v1'><application/><trustInfo/><dependency/></assembly>"} {
		s := r.begin("default-%d", i)
		var (
			m   winres.AppManifest
			err error
		)
		if r.call(s, "read", func() { m, err = winres.AppManifestFromXML([]byte(t)) }) {
			s.add(Ev{"op": "read", "xml": points([]byte(t)), "err": err != nil, "after": projectManifest(m)})
		}
		r.end(s)
	}
}
