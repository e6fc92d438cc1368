package main

import (
	"bytes"
	"encoding/json"
	"math/rand"

	"github.com/tc-hib/winres"
	"github.com/tc-hib/winres/version"
)

func init() { families["setters"] = genSetters }

type setterWorld struct{ *iconWorld }

func (w setterWorld) list(i int) {
	var out []Ev
	if !w.do("list", func() { out = w.listing(i) }) {
		return
	}
	w.s.add(Ev{"op": "list", "s": i + 1, "out": out})
}

func (w setterWorld) manifest(i int, m winres.AppManifest) {
	var (
		out  []Ev
		data []byte
	)
	if !w.do("setman", func() { w.sets[i].SetManifest(m) }) ||
		!w.do("list", func() {
			out = w.listing(i)
			data = w.sets[i].Get(winres.RT_MANIFEST, winres.ID(1), 0x409)
		}) {
		return
	}
	w.s.add(Ev{"op": "setman", "s": i + 1, "m": projectManifest(m), "out": out, "d": digest(data), "xml": points(data)})
}

func (w setterWorld) version(g *rand.Rand, i int, vi *version.Info) {
	var out []Ev
	x := projectInfo(vi)
	if !w.do("setver", func() { w.sets[i].SetVersionInfo(*vi) }) || !w.do("list", func() { out = w.listing(i) }) {
		return
	}
	res := []Ev{}
	for _, l := range tableLangs(vi.Table()) {
		data := w.sets[i].Get(winres.RT_VERSION, winres.ID(1), l)
		res = append(res, Ev{"l": int(l), "d": digest(data), "b": ints(data)})
	}
	w.s.add(Ev{"op": "setver", "s": i + 1, "x": x, "out": out, "res": res})
	if g.Intn(2) == 0 {
		// what is done with it afterwards is not the set's business
		vi.Set(0x409, "Later", "value")
		vi.SetFileVersion("9.9.9.9")
	}
}

// fetch extracts an icon or a cursor, and saves it.
func (w setterWorld) fetch(k, s int, r winres.Identifier, l int) {
	var (
		err error
		b   bytes.Buffer
	)
	if !w.do("fetch", func() {
		if k == 1 {
			var x *winres.Icon
			if l < 0 {
				x, err = w.sets[s].GetIcon(r)
			} else {
				x, err = w.sets[s].GetIconTranslation(r, uint16(l))
			}
			if err == nil {
				err = x.SaveICO(&b)
			}
		} else {
			var x *winres.Cursor
			if l < 0 {
				x, err = w.sets[s].GetCursor(r)
			} else {
				x, err = w.sets[s].GetCursorTranslation(r, uint16(l))
			}
			if err == nil {
				err = x.SaveCUR(&b)
			}
		}
	}) {
		return
	}
	w.s.add(Ev{"op": "fetch", "k": k, "s": s + 1, "r": encIdent(r), "l": l, "err": err != nil, "file": projectIco(b.Bytes(), false)})
}

type setterCase struct {
	Ops []struct {
		Op    string   `json:"op"`
		Langs []int    `json:"langs"`
		L     int      `json:"l"`
		G     []string `json:"g"`
	} `json:"ops"`
}

func smallInfo(g *rand.Rand, langs []int) *version.Info {
	vi := &version.Info{}
	setFields(g, vi, true)
	for _, l := range langs {
		for k := 1 + g.Intn(2); k > 0; k-- {
			vi.Set(uint16(l), randVerKey(g), randVerVal(g))
		}
	}
	return vi
}

func genSetters(r *run) {
	exeSrc := simplePE(rand.New(rand.NewSource(1)))
	r.readCases(func(n int, raw json.RawMessage) {
		var c setterCase
		if err := json.Unmarshal(raw, &c); err != nil {
			panic(err)
		}
		g := rand.New(rand.NewSource(int64(n) + r.seed*100003))
		s := r.begin("setters-%d", n)
		w := setterWorld{newIconWorld(r, s, 1)}
		k := 1 + g.Intn(2)
		groups := map[string]key{
			"1neutral": {groupType[k], winres.ID(1), 0},
			"Aneutral": {groupType[k], winres.Name("A"), 0},
			"Aen":      {groupType[k], winres.Name("A"), 0x409},
		}
		for _, o := range c.Ops {
			switch o.Op {
			case "man":
				w.manifest(0, randManifest(g))
			case "ver":
				w.version(g, 0, smallInfo(g, o.Langs))
			case "grp":
				if w.loadFile(g, k, 1, icoFile(g, k, 1+g.Intn(2))) {
					x := groups[o.G[0]+o.G[1]]
					l := int(x.l)
					if l == 0 && g.Intn(2) == 0 {
						l = -1
					}
					w.setGroup(k, 0, x.r, l, 1)
				}
			case "other":
				t := []winres.Identifier{winres.RT_RCDATA, winres.Name("MANIFEST"), winres.RT_STRING, winres.ID(17), winres.ID(25)}[g.Intn(5)]
				w.setRes(0, t, winres.ID(1), 0x409, randBytes(g, g.Intn(30)))
			case "userman":
				w.setRes(0, winres.RT_MANIFEST, winres.ID(1), []uint16{0x409, 0x409, 0}[g.Intn(3)], randBytes(g, g.Intn(30)))
			case "delver":
				w.setRes(0, winres.RT_VERSION, winres.ID(1), uint16(o.L), nil)
			case "delgrp":
				x := groups[o.G[0]+o.G[1]]
				w.setRes(0, x.t, x.r, x.l, nil)
			case "reload":
				w.reload(0, 0, exeSrc)
			}
			for _, x := range []string{"1neutral", "Aneutral", "Aen"} {
				w.fetch(k, 0, groups[x].r, int(groups[x].l))
			}
		}
		w.list(0)
		r.end(s)
	})
	s := r.begin("numbers")
	s.add(Ev{"op": "blobs", "b": Ev{}})
	s.add(Ev{"op": "numbers", "of": Ev{
		"cursor": int(winres.RT_CURSOR), "bitmap": int(winres.RT_BITMAP), "icon": int(winres.RT_ICON), "menu": int(winres.RT_MENU),
		"dialog": int(winres.RT_DIALOG), "string": int(winres.RT_STRING), "fontdir": int(winres.RT_FONTDIR), "font": int(winres.RT_FONT),
		"accelerator": int(winres.RT_ACCELERATOR), "rcdata": int(winres.RT_RCDATA), "messagetable": int(winres.RT_MESSAGETABLE),
		"groupcursor": int(winres.RT_GROUP_CURSOR), "groupicon": int(winres.RT_GROUP_ICON), "version": int(winres.RT_VERSION),
		"plugplay": int(winres.RT_PLUGPLAY), "vxd": int(winres.RT_VXD), "anicursor": int(winres.RT_ANICURSOR), "aniicon": int(winres.RT_ANIICON),
		"html": int(winres.RT_HTML), "manifest": int(winres.RT_MANIFEST), "neutral": winres.LCIDNeutral, "default": winres.LCIDDefault,
	}})
	r.end(s)
	for n := r.pick(400, 2500); n > 0; n-- {
		g := rand.New(rand.NewSource(r.rng.Int63()))
		s := r.begin("random-%d", n)
		w := setterWorld{newIconWorld(r, s, 2)}
		p := newPool(g, 1+g.Intn(3), 2, 2)
		p.types = append(p.types, winres.RT_VERSION, winres.RT_MANIFEST, winres.RT_GROUP_ICON, winres.RT_ICON, winres.RT_CURSOR)
		p.ress = append(p.ress, winres.ID(1), winres.ID(2))
		p.langs = append(p.langs, 0x409, 0)
		i := 0
		for k := g.Intn(6); k > 0; k-- {
			x := p.key(g)
			w.setRes(i, x.t, x.r, x.l, randBytes(g, g.Intn(20)))
		}
		for ops := 2 + g.Intn(7); ops > 0; ops-- {
			switch g.Intn(9) {
			case 0:
				w.manifest(i, randManifest(g))
			case 1, 2:
				vi := randInfo(g, true)
				w.version(g, i, vi)
				if g.Intn(3) == 0 {
					w.version(g, 1-i, vi)
				}
			case 3, 4, 5:
				k := 1 + g.Intn(2)
				if w.loadFile(g, k, 1, icoFile(g, k, g.Intn(4))) {
					x := p.key(g)
					l := int(x.l)
					if g.Intn(3) == 0 {
						l = -1
					}
					w.setGroup(k, i, x.r, l, 1)
					w.fetch(k, i, x.r, l)
					w.fetch(3-k, i, x.r, l)
				}
			case 6:
				if k, ok := w.randLive(g, i); ok {
					w.setRes(i, k.t, k.r, k.l, nil)
				}
			case 7:
				x := p.key(g)
				w.setRes(i, x.t, x.r, x.l, randBytes(g, g.Intn(20)))
			case 8:
				w.reload(i, i, exeSrc)
			}
			w.list(i)
			if g.Intn(4) == 0 {
				i = 1 - i
			}
		}
		w.list(0)
		w.list(1)
		r.end(s)
	}
}
