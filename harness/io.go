package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"

	"github.com/tc-hib/winres"
)

func init() { families["io"] = genIO }

// ioOp is an operation that reads a source (maybe) and writes to a destination (maybe).
// result is what it returned, when it doesn't write.
type ioOp struct {
	name string
	src  []byte // nil: no source
	dst  bool   // has a destination
	run  func(dst io.Writer, src io.ReadSeeker) (result string, err error)
	// the source may lose its end, and be a valid one
	cuttable bool
}

var errInjected = errors.New("injected failure")

// faultSrc is a source that can fail.
type faultSrc struct {
	r       *bytes.Reader
	failAt  int   // number of the call that fails, or -1
	forever bool  // calls that follow fail too
	err     error // what they return
	partial bool  // a failing read gives some data
	end     int64 // where it ends, whatever its size is
	calls   int
	hit     bool
	kinds   string // what each call was
}

func newFaultSrc(b []byte) *faultSrc {
	return &faultSrc{r: bytes.NewReader(b), failAt: -1, end: int64(len(b)), err: errInjected}
}

func (f *faultSrc) fails() bool {
	n := f.calls
	f.calls++
	if f.failAt >= 0 && (n == f.failAt || f.forever && n > f.failAt) {
		f.hit = true
		return true
	}
	return false
}

func (f *faultSrc) Read(p []byte) (int, error) {
	f.kinds += "r"
	pos := f.r.Size() - int64(f.r.Len())
	if f.fails() {
		n := 0
		if f.partial && len(p) > 1 && pos < f.end {
			n, _ = f.r.Read(p[:len(p)/2])
		}
		return n, f.err
	}
	if pos >= f.end {
		if f.end < f.r.Size() {
			f.hit = true
		}
		return 0, io.EOF
	}
	if int64(len(p)) > f.end-pos {
		p = p[:f.end-pos]
	}
	return f.r.Read(p)
}

func (f *faultSrc) Seek(off int64, whence int) (int64, error) {
	f.kinds += "s"
	if f.fails() {
		return 0, f.err
	}
	return f.r.Seek(off, whence)
}

// faultDst is a destination that can fail.
type faultDst struct {
	buf    bytes.Buffer
	limit  int // bytes it accepts, or -1
	failAt int // number of the only call that fails, or -1
	calls  int
	hit    bool
}

func (f *faultDst) Write(p []byte) (int, error) {
	n := f.calls
	f.calls++
	if n == f.failAt {
		f.hit = true
		return 0, errInjected
	}
	if f.limit >= 0 && f.buf.Len()+len(p) > f.limit {
		f.hit = true
		k := f.limit - f.buf.Len()
		f.buf.Write(p[:k])
		return k, errInjected
	}
	return f.buf.Write(p)
}

// sizedSrc tells its size.
type sizedSrc struct{ *faultSrc }

func (s sizedSrc) Size() int64 { return s.r.Size() }

func ioRow(n int, dst, src bool, err error, same bool) Ev {
	return Ev{"n": n, "dst": dst, "src": src, "err": err != nil, "same": same}
}

func (r *run) ioSession(op ioOp, id string) {
	s := r.begin("%s", id)
	defer r.end(s)
	var (
		ref   string
		want  []byte
		calls int
		wcall int
		kinds string
	)
	// src gives a nil interface when there is no source
	src := func(f *faultSrc, sized bool) io.ReadSeeker {
		if op.src == nil {
			return nil
		}
		if sized {
			return sizedSrc{f}
		}
		return f
	}
	do := func(d io.Writer, rs io.ReadSeeker) (res string, err error, ok bool) {
		ok = r.call(s, op.name, func() { res, err = op.run(d, rs) })
		return
	}
	{
		d := &faultDst{limit: -1, failAt: -1}
		f := newFaultSrc(op.src)
		res, err, ok := do(d, src(f, false))
		if !ok {
			return
		}
		ref, want, calls, wcall, kinds = res, d.buf.Bytes(), f.calls, d.calls, f.kinds
		s.add(Ev{"op": "ref", "what": op.name, "err": err != nil, "n": len(want), "w": wcall, "s": calls})
		if err != nil {
			return
		}
	}
	same := func(res string, d *faultDst) bool { return res == ref && bytes.Equal(d.buf.Bytes(), want) }

	if op.dst {
		rows := []Ev{}
		step := 1
		if max := r.pick(4000, 60000); len(want) > max {
			step = len(want)/max + 1
		}
		for n := 0; n <= len(want)+1; n++ {
			if step > 1 && n > 600 && n < len(want)-600 && n%step != 0 {
				continue
			}
			d := &faultDst{limit: n, failAt: -1}
			res, err, ok := do(d, src(newFaultSrc(op.src), n%2 == 0))
			if !ok {
				return
			}
			rows = append(rows, ioRow(n, d.hit, false, err, same(res, d)))
		}
		s.add(Ev{"op": "dstbyte", "rows": rows})
		rows = []Ev{}
		for n := 0; n < wcall; n++ {
			d := &faultDst{limit: -1, failAt: n}
			res, err, ok := do(d, src(newFaultSrc(op.src), n%2 == 0))
			if !ok {
				return
			}
			rows = append(rows, ioRow(n, d.hit, false, err, same(res, d)))
		}
		s.add(Ev{"op": "dstcall", "rows": rows})
	}

	if op.src != nil {
		rows := []Ev{}
		for _, sized := range []bool{false, true} {
			for n := 0; n < calls; n++ {
				for how := 0; how < 8; how++ {
					f := newFaultSrc(op.src)
					f.failAt, f.forever = n, how%2 == 1
					switch how / 2 {
					case 1:
						f.err = io.EOF
					case 2:
						f.partial = true
					case 3:
						f.err = io.ErrUnexpectedEOF
					}
					d := &faultDst{limit: -1, failAt: -1}
					res, err, ok := do(d, src(f, sized))
					if !ok {
						return
					}
					rows = append(rows, ioRow(n, false, f.hit, err, same(res, d)))
				}
			}
		}
		s.add(Ev{"op": "srccall", "rows": rows, "calls": kinds})
		rows = []Ev{}
		step := 1
		if max := r.pick(4000, 60000); len(op.src) > max {
			step = len(op.src)/max + 1
		}
		for n := 0; n < len(op.src); n++ {
			if step > 1 && n > 600 && n < len(op.src)-600 && n%step != 0 {
				continue
			}
			f := newFaultSrc(op.src)
			f.end = int64(n)
			d := &faultDst{limit: -1, failAt: -1}
			res, err, ok := do(d, src(f, n%2 == 0))
			if !ok {
				return
			}
			// Nothing was read beyond its end if it wasn't hit
			rows = append(rows, ioRow(n, false, f.hit, err, same(res, d)))
			if op.cuttable {
				// a file that is shorter
				d = &faultDst{limit: -1, failAt: -1}
				res, err, ok = do(d, bytes.NewReader(op.src[:n]))
				if !ok {
					return
				}
				rows = append(rows, ioRow(n, false, true, err, same(res, d)))
			}
		}
		s.add(Ev{"op": "srcend", "rows": rows})
	}
	r.ioKinds(s, op, ref, want)
}

// benign readers: everything a Reader may do
type oddReader struct {
	r *bytes.Reader
	g *rand.Rand
}

func (o oddReader) Read(p []byte) (int, error) {
	if o.g.Intn(8) == 0 {
		return 0, nil
	}
	n := len(p)
	if n > 1 {
		n = 1 + o.g.Intn(n)
	}
	k, err := o.r.Read(p[:n])
	if err == nil && o.r.Len() == 0 && o.g.Intn(2) == 0 {
		err = io.EOF // with the last bytes
	}
	return k, err
}
func (o oddReader) Seek(off int64, whence int) (int64, error) { return o.r.Seek(off, whence) }

type plainWriter struct{ b *bytes.Buffer }

func (p plainWriter) Write(b []byte) (int, error) { return p.b.Write(b) }

// ioKinds runs the operation with all kinds of sources and destinations.
func (r *run) ioKinds(s *Session, op ioOp, ref string, want []byte) {
	dir := os.Getenv("VERIF_SCRATCH")
	if dir == "" {
		dir = os.TempDir()
	}
	dir, err := os.MkdirTemp(dir, "io")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	srcFile := filepath.Join(dir, "src")
	if op.src != nil {
		if err := os.WriteFile(srcFile, op.src, 0o600); err != nil {
			panic(err)
		}
	}
	var opened []*os.File
	defer func() {
		for _, f := range opened {
			f.Close()
		}
	}()
	open := func(name string, flag int) *os.File {
		f, err := os.OpenFile(name, flag, 0o600)
		if err != nil {
			panic(err)
		}
		opened = append(opened, f)
		return f
	}
	sources := []func() io.ReadSeeker{func() io.ReadSeeker { return nil }}
	if op.src != nil {
		sources = []func() io.ReadSeeker{
			func() io.ReadSeeker { return bytes.NewReader(op.src) },
			func() io.ReadSeeker { return open(srcFile, os.O_RDONLY) },
			func() io.ReadSeeker { return oddReader{bytes.NewReader(op.src), r.rng} },
			func() io.ReadSeeker { return onlyRS{open(srcFile, os.O_RDONLY)} },
			func() io.ReadSeeker { return onlyRS{chunkReader{bytes.NewReader(op.src), 1}} },
		}
		if op.name != "import" { // icons are read from the current position, executables from the start
			sources = append(sources, func() io.ReadSeeker {
				x := bytes.NewReader(op.src)
				x.Seek(int64(len(op.src)/2), io.SeekStart)
				return x
			})
		}
	}
	prefix := []byte("what was there before, and that is longer or shorter than what is written")
	long := bytes.Repeat([]byte("z"), len(want)+1000)
	n := 0
	rows := []Ev{}
	for _, newSrc := range sources {
		for kind := 0; kind < 7; kind++ {
			if !op.dst && kind > 0 {
				break
			}
			n++
			var got func() []byte
			var w io.Writer
			name := filepath.Join(dir, fmt.Sprint("dst", n))
			read := func() []byte {
				b, err := os.ReadFile(name)
				if err != nil {
					panic(err)
				}
				return b
			}
			expect := want
			switch kind {
			case 0:
				b := &bytes.Buffer{}
				w, got = b, b.Bytes
			case 1:
				b := &bytes.Buffer{}
				w, got = plainWriter{b}, b.Bytes
			case 2: // a buffer that isn't empty
				b := &bytes.Buffer{}
				b.Write(prefix)
				w, got, expect = b, b.Bytes, append(append([]byte{}, prefix...), want...)
			case 3: // a new file
				w, got = open(name, os.O_CREATE|os.O_RDWR), read
			case 4: // over the start of a file
				os.WriteFile(name, long, 0o600)
				w, got = open(name, os.O_RDWR), read
				expect = append(append([]byte{}, want...), long[len(want):]...)
			case 5: // at the end of a file
				os.WriteFile(name, prefix, 0o600)
				w, got = open(name, os.O_WRONLY|os.O_APPEND), read
				expect = append(append([]byte{}, prefix...), want...)
			case 6: // a pipe
				pr, pw, err := os.Pipe()
				if err != nil {
					panic(err)
				}
				ch := make(chan []byte)
				go func() { b, _ := io.ReadAll(pr); ch <- b }()
				w, got = pw, func() []byte { pw.Close(); b := <-ch; pr.Close(); return b }
			}
			var (
				res string
				err error
			)
			src := newSrc()
			ok := r.call(s, op.name, func() { res, err = op.run(w, src) })
			if !ok {
				return
			}
			rows = append(rows, ioRow(n, false, false, err, res == ref && bytes.Equal(got(), expect)))
		}
	}
	s.add(Ev{"op": "kinds", "rows": rows})
}

func setDigest(rs *winres.ResourceSet) string {
	if rs == nil {
		return "nil"
	}
	var b bytes.Buffer
	rs.Walk(func(t, x winres.Identifier, l uint16, data []byte) bool {
		fmt.Fprintln(&b, encIdent(t), encIdent(x), l, digest(data))
		return true
	})
	return digest(b.Bytes())
}

func patchOp(name string, rs *winres.ResourceSet, src []byte, force, remove bool) ioOp {
	return ioOp{name: name, src: src, dst: true, run: func(d io.Writer, rd io.ReadSeeker) (string, error) {
		switch {
		case force && remove:
			return "", rs.WriteToEXE(d, rd, winres.ForceCheckSum(), winres.WithAuthenticode(winres.RemoveSignature))
		case force:
			return "", rs.WriteToEXE(d, rd, winres.ForceCheckSum(), winres.WithAuthenticode(winres.IgnoreSignature))
		case remove:
			return "", rs.WriteToEXE(d, rd, winres.WithAuthenticode(winres.RemoveSignature))
		}
		return "", rs.WriteToEXE(d, rd, winres.WithAuthenticode(winres.IgnoreSignature))
	}}
}

func genIO(r *run) {
	g := r.rng
	smallSet := func(n int) (*winres.ResourceSet, keyPool) {
		rs := &winres.ResourceSet{}
		p := newPool(g, 1+g.Intn(3), 1+g.Intn(3), 1+g.Intn(2))
		for i := 0; i < n; i++ {
			k := p.key(g)
			rs.Set(k.t, k.r, k.l, randBytes(g, g.Intn(60)))
		}
		return rs, p
	}
	rounds := r.pick(6, 40)
	for i := 0; i < rounds; i++ {
		// object files
		for _, n := range []int{0, 1, 6} {
			rs, _ := smallSet(n)
			arch := []winres.Arch{winres.ArchAMD64, winres.ArchI386, winres.ArchARM, winres.ArchARM64}[g.Intn(4)]
			r.ioSession(ioOp{name: "object", dst: true, run: func(d io.Writer, _ io.ReadSeeker) (string, error) { return "", rs.WriteObject(d, arch) }},
				fmt.Sprintf("object-%d-%d", n, i))
		}
		// executables
		for v := 0; v < 6; v++ {
			rs, pool := smallSet(1 + g.Intn(5))
			c := peCfg{PE64: g.Intn(2) == 0, Lfanew: 0x40 + 8*g.Intn(8), Dirs: 16, FA: 0x200, SA: 0x1000, Room: 40 + g.Intn(80),
				Secs: []secCfg{{Kind: "code", Raw: 1}}, Overlay: []int{0, 1, 77}[g.Intn(3)], Sum: v%2 == 0}
			switch v {
			case 1:
				c.Secs = append(c.Secs, secCfg{Kind: "rsrc", Order: 1})
			case 2:
				c.Secs = append(c.Secs, secCfg{Kind: "rsrc", Order: 1}, secCfg{Kind: "reloc", Raw: 1, Order: 2})
			case 3:
				c.Secs = append(c.Secs, secCfg{Kind: "rsrc", Order: 1}, secCfg{Kind: "data", Raw: 1, Order: 2})
				c.Cert = 64
			case 4:
				c.FA = 0x400
				c.RawGap = 1
				c.Cert = 40
			case 5: // the data of the last section is not aligned
				c.Secs[0].Cut = 1 + g.Intn(300)
			}
			img := c.build(g, foreignDir(g, pool.leaves(g, 1+g.Intn(4)), g.Intn(3)))
			r.ioSession(patchOp("patch", rs, img, g.Intn(2) == 0, g.Intn(2) == 0), fmt.Sprintf("patch-%d-%d", v, i))
			if v >= 1 && v <= 3 {
				r.ioSession(ioOp{name: "load", src: img, cuttable: true, run: func(_ io.Writer, rd io.ReadSeeker) (string, error) {
					rs, err := winres.LoadFromEXE(rd)
					return setDigest(rs), err
				}}, fmt.Sprintf("load-%d-%d", v, i))
				t := pool.types[0]
				r.ioSession(ioOp{name: "loadtype", src: img, cuttable: true, run: func(_ io.Writer, rd io.ReadSeeker) (string, error) {
					rs, err := winres.LoadFromEXESingleType(rd, t)
					return setDigest(rs), err
				}}, fmt.Sprintf("loadtype-%d-%d", v, i))
			}
		}
		// icons and cursors
		for x := 0; x < 4; x++ {
			k := 1 + x%2
			b := icoFile(g, k, []int{1, 2, 3, 2, 4}[g.Intn(5)])
			saved := func(d io.Writer, rd io.ReadSeeker) (string, error) {
				buf := &bytes.Buffer{}
				if k == 1 {
					x, err := winres.LoadICO(rd)
					if err != nil {
						return "", err
					}
					x.SaveICO(buf)
				} else {
					x, err := winres.LoadCUR(rd)
					if err != nil {
						return "", err
					}
					x.SaveCUR(buf)
				}
				return digest(buf.Bytes()), nil
			}
			if _, err := saved(nil, bytes.NewReader(b)); err != nil {
				continue // not a file that can be loaded
			}
			r.ioSession(ioOp{name: "import", src: b, cuttable: true, run: saved}, fmt.Sprintf("import-%d-%d", x, i))
			var save func(w io.Writer) error
			if k == 1 {
				x, err := winres.LoadICO(bytes.NewReader(b))
				if err != nil {
					continue
				}
				save = x.SaveICO
			} else {
				x, err := winres.LoadCUR(bytes.NewReader(b))
				if err != nil {
					continue
				}
				save = x.SaveCUR
			}
			r.ioSession(ioOp{name: "save", dst: true, run: func(d io.Writer, _ io.ReadSeeker) (string, error) { return "", save(d) }},
				fmt.Sprintf("save-%d-%d", x, i))
		}
	}
}
