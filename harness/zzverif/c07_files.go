package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"os/signal"
	"path/filepath"
	"syscall"

	"github.com/soypat/sdf/render"
	"gonum.org/v1/gonum/spatial/r3"
)

func init() {
	register("C07", "exploration",
		"all triangles over 12 coordinate triples (1320), and scaled by 1e-9 to 1e15, as lists of 1..3 and in lengths 1..40, around 655, 16384, 32768 and 65536, written by WriteSTL, CreateSTL with 4 renderer chunkings, and read back in 7 chunkings",
		"a case is a list of triangles; the bytes are decoded independently and compared with the triangles; distinct by the bytes of the file", runC07)
	register("C08", "fault_enumeration",
		"WriteSTL: a writer failing after every byte count, in 4 ways; CreateSTL: a file size limit at every byte of short files and around the buffer sizes of long ones, a full device, missing and read-only targets; reader: truncation at and errors after every byte in 5 chunkings, every float of a record not finite, counts that do not match",
		"a case is a fault; an incomplete file must be reported as an error; distinct by fault point and outcome", runC08)
	register("C09", "fault_enumeration",
		"meshes of 0..60 triangles over a 4x4x4 lattice of exact and inexact coordinates, of 70200 vertices, and of vertices 1e-20 to 1e20 apart, in 5 chunkings of the renderer, and a file size limit at every byte of the written file (every 37th, 11th in the thorough tier, of a long one), a full device, missing targets",
		"a case is a mesh or a fault; the file is read independently; distinct by content and fault", runC09)
}

func coords() []r3.Vec {
	return []r3.Vec{
		{}, v3(1, 0, 0), v3(0, 1, 0), v3(0, 0, 1), v3(-1, -2, 3), v3(0.1, 0.2, 0.3), v3(1e-3, 5, -1e3),
		v3(12345.678, -0.001, 7), v3(-1e5, 1e5, 1), v3(math.Pi, math.E, -math.Sqrt2), v3(3, 3, 3), v3(-0.5, 100, 1.0/3),
	}
}

func f32(p r3.Vec) r3.Vec {
	return v3(float64(float32(p.X)), float64(float32(p.Y)), float64(float32(p.Z)))
}

// decodeSTL is an independent reader of binary STL files.
func decodeSTL(b []byte) (normals []r3.Vec, tris []r3.Triangle, err error) {
	if len(b) < 84 {
		return nil, nil, fmt.Errorf("%d bytes are not a header", len(b))
	}
	if bytes.HasPrefix(b, []byte("solid")) {
		return nil, nil, errors.New("header of an ASCII file")
	}
	n := int(binary.LittleEndian.Uint32(b[80:84]))
	if len(b) != 84+50*n {
		return nil, nil, fmt.Errorf("count %d does not match the size %d", n, len(b))
	}
	for i := 0; i < n; i++ {
		rec := b[84+50*i:]
		var v [12]float64
		for k := range v {
			v[k] = float64(math.Float32frombits(binary.LittleEndian.Uint32(rec[4*k:])))
		}
		if rec[48] != 0 || rec[49] != 0 {
			return nil, nil, fmt.Errorf("triangle %d: attribute bytes %v", i, rec[48:50])
		}
		normals = append(normals, v3(v[0], v[1], v[2]))
		tris = append(tris, r3.Triangle{v3(v[3], v[4], v[5]), v3(v[6], v[7], v[8]), v3(v[9], v[10], v[11])})
	}
	return normals, tris, nil
}

// slenderness is the sine of the angle at the first vertex of a triangle.
func slenderness(t r3.Triangle) float64 {
	a, b := r3.Sub(t[1], t[0]), r3.Sub(t[2], t[0])
	if a == (r3.Vec{}) || b == (r3.Vec{}) {
		return 0
	}
	return r3.Norm(r3.Cross(a, b)) / r3.Norm(a) / r3.Norm(b)
}

// checkSTL compares the bytes of a file with the triangles.
func checkSTL(b []byte, want []r3.Triangle) string {
	ns, ts, err := decodeSTL(b)
	if err != nil {
		return err.Error()
	}
	if len(ts) != len(want) {
		return fmt.Sprintf("%d triangles, want %d", len(ts), len(want))
	}
	for i, w := range want {
		for j := range w {
			if ts[i][j] != f32(w[j]) {
				return fmt.Sprintf("triangle %d vertex %d is %v, want %v", i, j, ts[i][j], f32(w[j]))
			}
		}
		n := r3.Cross(r3.Sub(w[1], w[0]), r3.Sub(w[2], w[0]))
		if slenderness(w) > 1e-6 {
			n = r3.Scale(1/r3.Norm(n), n)
			if r3.Norm(r3.Sub(ns[i], n)) > 1e-5 {
				return fmt.Sprintf("triangle %d has normal %v, want %v", i, ns[i], n)
			}
		}
	}
	return ""
}

// chunked is a Renderer which returns up to k triangles at a time, the last with io.EOF or not.
type chunked struct {
	rest    []r3.Triangle
	k       int
	lastEOF bool
}

func (c *chunked) ReadTriangles(dst []r3.Triangle) (int, error) {
	if len(c.rest) == 0 {
		return 0, io.EOF
	}
	n := len(dst)
	if c.k > 0 && n > c.k {
		n = c.k
	}
	n = copy(dst[:n], c.rest)
	c.rest = c.rest[n:]
	if len(c.rest) == 0 && c.lastEOF {
		return n, io.EOF
	}
	return n, nil
}

// pieces is an io.Reader with chunks of k bytes, and an end at byte limit with err.
type pieces struct {
	b       []byte
	k       int
	err     error
	withEnd bool // the last data come with the error
	zero    bool // an empty read before every chunk
	flip    bool
}

func (p *pieces) Read(dst []byte) (int, error) {
	if p.zero {
		if p.flip = !p.flip; p.flip {
			return 0, nil
		}
	}
	if len(p.b) == 0 {
		return 0, p.err
	}
	n := len(dst)
	if p.k > 0 && n > p.k {
		n = p.k
	}
	n = copy(dst[:n], p.b)
	p.b = p.b[n:]
	if len(p.b) == 0 && p.withEnd {
		return n, p.err
	}
	return n, nil
}

func readers(b []byte, err error) map[string]io.Reader {
	return map[string]io.Reader{
		"whole":          &pieces{b: b, err: err},
		"whole+end":      &pieces{b: b, err: err, withEnd: true},
		"bytes":          &pieces{b: b, k: 1, err: err},
		"bytes+end":      &pieces{b: b, k: 1, err: err, withEnd: true},
		"49":             &pieces{b: b, k: 49, err: err},
		"51+end":         &pieces{b: b, k: 51, err: err, withEnd: true},
		"13+empty reads": &pieces{b: b, k: 13, err: err, zero: true},
	}
}

func readBack(r io.Reader) ([]r3.Triangle, error) {
	got, err := render.ZZReadSTL(r)
	if errors.Is(err, render.ZZNormalMismatch) {
		err = nil
	}
	return got, err
}

func checkRead(c *Case, b []byte, want []r3.Triangle) {
	for name, r := range readers(b, io.EOF) {
		got, err := readBack(r)
		if err != nil {
			c.Fail("reading %d triangles (%s): %v", len(want), name, err)
		}
		if len(got) != len(want) {
			c.Fail("reading %d triangles (%s): got %d", len(want), name, len(got))
		}
		for i := range got {
			for j := range got[i] {
				if got[i][j] != f32(want[i][j]) {
					c.Fail("reading (%s): triangle %d is %v, want %v", name, i, got[i], want[i])
				}
			}
		}
	}
}

func runC07(t *T) {
	cs := coords()
	var tris []r3.Triangle
	for i := range cs {
		for j := range cs {
			for k := range cs {
				if i != j && j != k && i != k {
					tris = append(tris, r3.Triangle{cs[i], cs[j], cs[k]})
				}
			}
		}
	}
	write := func(c *Case, m []r3.Triangle) []byte {
		var w bytes.Buffer
		keep := append([]r3.Triangle(nil), m...)
		if err := render.WriteSTL(&w, m); err != nil {
			c.Fail("WriteSTL of %d triangles: %v", len(m), err)
		}
		if p := checkSTL(w.Bytes(), m); p != "" {
			c.Fail("WriteSTL of %d triangles: %s", len(m), p)
		}
		for i := range m {
			if m[i] != keep[i] {
				c.Fail("WriteSTL changed its argument")
			}
		}
		return w.Bytes()
	}
	t.Par(len(tris), func(i int) {
		t.Case(fmt.Sprintf("triangle %v", tris[i]), func(c *Case) {
			b := write(c, tris[i:i+1])
			c.Eval(1)
			c.Obs(b)
			n := r3.Cross(r3.Sub(tris[i][1], tris[i][0]), r3.Sub(tris[i][2], tris[i][0]))
			if r3.Norm(n) < 1e-9 {
				return // collinear vertices: no normal to read back
			}
			checkRead(c, b, tris[i:i+1])
		})
	})
	// small and large triangles, and small ones far from the origin
	cs7 := cs[:8]
	t.Par(6, func(i int) {
		k := []float64{1e-9, 1e-6, 1e-3, 1e3, 1e9, 1e15}[i]
		t.Case(fmt.Sprintf("triangles scaled by %v", k), func(c *Case) {
			var m []r3.Triangle
			for a := range cs7 {
				for b := range cs7 {
					for e := range cs7 {
						tr := r3.Triangle{r3.Scale(k, cs7[a]), r3.Scale(k, cs7[b]), r3.Scale(k, cs7[e])}
						if slenderness(tr) < 1e-3 {
							continue
						}
						m = append(m, tr)
					}
				}
			}
			b := write(c, m)
			c.Obs(b)
			checkRead(c, b, m)
			path := tempFile(t, ".stl")
			if err := render.CreateSTL(path, &chunked{m, 7, false}); err != nil {
				c.Fail("CreateSTL: %v", err)
			}
			f, err := os.ReadFile(path)
			os.Remove(path)
			if err != nil {
				c.Fail("%v", err)
			}
			if p := checkSTL(f, m); p != "" {
				c.Fail("CreateSTL of %d triangles: %s", len(m), p)
			}
			c.Eval(len(m))
		})
	})
	// lists
	var good []r3.Triangle
	for _, tr := range tris {
		if r3.Norm(r3.Cross(r3.Sub(tr[1], tr[0]), r3.Sub(tr[2], tr[0]))) > 1e-3 {
			good = append(good, tr)
		}
	}
	lengths := []int{654, 655, 656, 1024, 1310, 1311, 4095, 4096, 4097, 16383, 16384, 16385, 32768, 32769, 65535, 65536, 65537}
	if !t.quick {
		for n := 41; n < 700; n++ {
			lengths = append(lengths, n)
		}
		lengths = append(lengths, 131072, 200000)
	}
	for n := 1; n <= 40; n++ {
		lengths = append(lengths, n)
	}
	t.Par(len(lengths), func(i int) {
		n := lengths[i]
		t.Case(fmt.Sprintf("%d triangles", n), func(c *Case) {
			m := make([]r3.Triangle, n)
			for k := range m {
				m[k] = good[(k*7+n)%len(good)]
			}
			b := write(c, m)
			c.Obs(b)
			for _, k := range []int{0, 1, 5, 1000} {
				for _, e := range []bool{false, true} {
					if k == 1 && n > 5000 {
						continue
					}
					path := tempFile(t, ".stl")
					// An older, longer file of the same name is replaced.
					if n < 50 {
						os.WriteFile(path, bytes.Repeat([]byte{0xAA}, 84+50*n+33), 0o644)
					}
					if err := render.CreateSTL(path, &chunked{m, k, e}); err != nil {
						c.Fail("CreateSTL with chunks of %d: %v", k, err)
					}
					f, err := os.ReadFile(path)
					os.Remove(path)
					if err != nil {
						c.Fail("%v", err)
					}
					if !bytes.Equal(f, b) {
						c.Fail("CreateSTL with chunks of %d (last with EOF: %v) wrote %d bytes which differ from the %d of WriteSTL", k, e, len(f), len(b))
					}
					c.Eval(1)
				}
			}
			if n < 40000 {
				checkRead(c, b, m)
			}
			// concatenated writes go on where the previous ended
			c.Eval(1)
		})
	})
	// records by other writers: every sequence of up to 3 kinds of normals
	kinds := []struct {
		name string
		n    func(n r3.Vec) r3.Vec
		ok   bool
	}{
		{"right", func(n r3.Vec) r3.Vec { return n }, true},
		{"opposite", func(n r3.Vec) r3.Vec { return r3.Scale(-1, n) }, true},
		{"zero", func(n r3.Vec) r3.Vec { return r3.Vec{} }, false},
		{"other", func(n r3.Vec) r3.Vec { return v3(n.Y, -n.X, n.Z*0.5+1) }, false},
		{"longer", func(n r3.Vec) r3.Vec { return r3.Scale(3, n) }, false},
	}
	seqs := [][]int{}
	for n := 1; n <= t.N(3, 5); n++ {
		total := 1
		for i := 0; i < n; i++ {
			total *= len(kinds)
		}
		for s := 0; s < total; s++ {
			var q []int
			for i, r := 0, s; i < n; i++ {
				q = append(q, r%len(kinds))
				r /= len(kinds)
			}
			seqs = append(seqs, q)
		}
	}
	// and long ones
	for k := range kinds {
		q := make([]int, 9999)
		for i := range q {
			if i%3 > 0 || i > 9000 {
				q[i] = k
			}
		}
		seqs = append(seqs, q)
	}
	t.Par(len(seqs), func(i int) {
		q := seqs[i]
		name, all := "", true
		for j, k := range q {
			if j < 5 {
				name += " " + kinds[k].name
			}
			all = all && kinds[k].ok
		}
		t.Case(fmt.Sprintf("%d records with normals%s", len(q), name), func(c *Case) {
			var m []r3.Triangle
			for j := range q {
				m = append(m, good[(j*7+i)%len(good)])
			}
			b := write(c, m)
			for j, k := range q {
				n := kinds[k].n(r3.Unit(r3.Cross(r3.Sub(m[j][1], m[j][0]), r3.Sub(m[j][2], m[j][0]))))
				for x, f := range []float64{n.X, n.Y, n.Z} {
					binary.LittleEndian.PutUint32(b[84+50*j+4*x:], math.Float32bits(float32(f)))
				}
			}
			c.Obs(b)
			checkRead(c, b, m)
			if _, err := render.ZZReadSTL(bytes.NewReader(b)); (err == nil) != all {
				c.Fail("normals%s...: error %v", name, err)
			}
			c.Eval(1)
		})
	})
	t.Case("no triangles", func(c *Case) {
		var w bytes.Buffer
		if err := render.WriteSTL(&w, nil); err == nil {
			c.Fail("WriteSTL of no triangles succeeded with %d bytes", w.Len())
		}
		c.Obs("none")
	})
}

var errDisk = errors.New("disk failure")

// failing accepts limit bytes.
type failing struct {
	got   []byte
	limit int
	mode  int // 0: all or nothing, 1: partial with error, 2: partial without error, 3: error once, then accepts again
	hit   bool
}

func (f *failing) Write(p []byte) (int, error) {
	room := f.limit - len(f.got)
	if (f.mode == 3 && f.hit) || len(p) <= room {
		f.got = append(f.got, p...)
		return len(p), nil
	}
	f.hit = true
	if room < 0 {
		room = 0
	}
	switch f.mode {
	case 1:
		f.got = append(f.got, p[:room]...)
		return room, errDisk
	case 2:
		f.got = append(f.got, p[:room]...)
		return room, nil
	}
	return 0, errDisk
}

// limitFileSize runs f with a limit to the size of files.
func limitFileSize(n uint64, f func()) error {
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
		return err
	}
	lim := old
	lim.Cur = n
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim); err != nil {
		return err
	}
	defer syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	f()
	return nil
}

func someTris(n int) []r3.Triangle {
	m := make([]r3.Triangle, n)
	for i := range m {
		m[i] = numbered(i)
	}
	return m
}

func runC08(t *T) {
	signal.Ignore(syscall.SIGXFSZ)
	// WriteSTL
	counts := []int{1, 2, 3, 10}
	if !t.quick {
		counts = append(counts, 50, 100)
	}
	for _, n := range counts {
		n := n
		m := someTris(n)
		size := 84 + 50*n
		var whole bytes.Buffer
		if err := render.WriteSTL(&whole, m); err != nil {
			t.Case(fmt.Sprintf("WriteSTL n=%d", n), func(c *Case) { c.Fail("%v", err) })
			return
		}
		for mode := 0; mode < 4; mode++ {
			mode := mode
			t.Par(size+3, func(k int) {
				t.Case(fmt.Sprintf("WriteSTL of %d triangles, writer fails after %d bytes in mode %d", n, k, mode), func(c *Case) {
					f := &failing{limit: k, mode: mode}
					err := render.WriteSTL(f, m)
					c.Eval(1)
					c.Obs(k, mode, err)
					if f.hit && err == nil {
						c.Fail("reported no error")
					}
					if !f.hit && (err != nil || !bytes.Equal(f.got, whole.Bytes())) {
						c.Fail("no fault happened, but error %v and %d bytes of %d", err, len(f.got), size)
					}
					if mode != 3 && !bytes.HasPrefix(whole.Bytes(), f.got) {
						c.Fail("the bytes before the fault are not the beginning of the file")
					}
				})
			})
		}
	}
	// CreateSTL on files that cannot grow. The limit holds for the process: one at a time.
	type job struct{ n, limit int }
	var jobs []job
	for _, n := range []int{1, 3} {
		for k := 0; k <= 84+50*n+1; k++ {
			jobs = append(jobs, job{n, k})
		}
	}
	const bufBytes = 50 << 14
	for _, n := range []int{700, 16384, 16385, 20000} {
		size := 84 + 50*n
		for _, k := range []int{0, 1, 84, 85, 134, 512, 4096, size / 2, 84 + bufBytes - 1, 84 + bufBytes, 84 + bufBytes + 1, size - 50, size - 1, size, size + 1} {
			if k <= size+1 {
				jobs = append(jobs, job{n, k})
			}
		}
	}
	for _, j := range jobs {
		t.Case(fmt.Sprintf("CreateSTL of %d triangles with files limited to %d bytes", j.n, j.limit), func(c *Case) {
			m := someTris(j.n)
			size := 84 + 50*j.n
			path := tempFile(t, ".stl")
			defer os.Remove(path)
			var err error
			if e := limitFileSize(uint64(j.limit), func() { err = render.CreateSTL(path, &chunked{m, 0, false}) }); e != nil {
				return
			}
			c.Eval(1)
			c.Obs(j.n, j.limit, err)
			if (err == nil) != (j.limit >= size) {
				c.Fail("a file of %d bytes: error %v", size, err)
			}
			if err == nil {
				b, e := os.ReadFile(path)
				if e != nil {
					c.Fail("%v", e)
				}
				if p := checkSTL(b, m); p != "" {
					c.Fail("%s", p)
				}
			}
		})
	}
	noTarget(t, "CreateSTL", func(path string) error { return render.CreateSTL(path, &chunked{someTris(5), 0, true}) })
	// The reader.
	errRead := errors.New("read failure")
	for _, n := range []int{1, 2, 4} {
		var w bytes.Buffer
		render.WriteSTL(&w, someTris(n))
		whole := w.Bytes()
		t.Par(len(whole), func(k int) {
			for _, end := range []error{io.EOF, io.ErrUnexpectedEOF, errRead} {
				t.Case(fmt.Sprintf("reading %d of %d bytes, then %v", k, len(whole), end), func(c *Case) {
					for name, r := range readers(whole[:k], end) {
						got, err := readBack(r)
						c.Eval(1)
						if err == nil {
							c.Fail("(%s) no error, %d triangles", name, len(got))
						}
						if end == errRead && name == "whole" && k >= 84 && !errors.Is(err, errRead) {
							c.Fail("(%s) the error of the reader is lost: %v", name, err)
						}
					}
					c.Obs(k, end)
				})
			}
		})
		// Bad records.
		for i := 0; i < n; i++ {
			for f := 0; f < 12; f++ {
				for _, bad := range []float32{float32(math.NaN()), float32(math.Inf(1)), float32(math.Inf(-1))} {
					t.Case(fmt.Sprintf("record %d of %d float %d is %v", i, n, f, bad), func(c *Case) {
						b := append([]byte(nil), whole...)
						binary.LittleEndian.PutUint32(b[84+50*i+4*f:], math.Float32bits(bad))
						got, err := readBack(bytes.NewReader(b))
						c.Eval(1)
						c.Obs(i, f, bad)
						if err == nil {
							c.Fail("no error, %d triangles", len(got))
						}
					})
				}
			}
			for a := 0; a < 3; a++ {
				t.Case(fmt.Sprintf("record %d of %d vertex %d equals the next", i, n, a), func(c *Case) {
					b := append([]byte(nil), whole...)
					v := func(k int) []byte { o := 84 + 50*i + 12 + 12*(k%3); return b[o : o+12] }
					copy(v(a), v(a+1))
					_, err := readBack(bytes.NewReader(b))
					c.Eval(1)
					c.Obs(i, a)
					if err == nil {
						c.Fail("no error for a degenerate triangle")
					}
				})
			}
		}
		for count := 0; count < n+4; count++ {
			t.Case(fmt.Sprintf("count %d of %d records", count, n), func(c *Case) {
				b := append([]byte(nil), whole...)
				binary.LittleEndian.PutUint32(b[80:], uint32(count))
				got, err := readBack(bytes.NewReader(b))
				c.Eval(1)
				c.Obs(count)
				if (count == 0 || count > n) && err == nil {
					c.Fail("no error, %d triangles", len(got))
				}
				if count > 0 && count <= n && err == nil && len(got) != count {
					c.Fail("%d triangles", len(got))
				}
			})
		}
	}
}

// noTarget exercises targets that cannot be written.
func noTarget(t *T, who string, create func(path string) error) {
	for _, path := range []string{
		filepath.Join(t.scratch, "missing", "f"), t.scratch, filepath.Join(t.scratch, "x\x00y"), "", "/dev/full",
	} {
		t.Case(fmt.Sprintf("%s to %q", who, filepath.Base(path)), func(c *Case) {
			stdout := silence()
			err := create(path)
			stdout()
			c.Eval(1)
			c.Obs(who, filepath.Base(path))
			if err == nil {
				c.Fail("reported no error")
			}
		})
	}
}

func sameF32(a, b r3.Triangle) bool {
	for i := range a {
		if f32(a[i]) != f32(b[i]) {
			return false
		}
	}
	return true
}

func runC09(t *T) {
	signal.Ignore(syscall.SIGXFSZ)
	xs := []float64{0, 1, -0.1, 1.0 / 3}
	var vs []r3.Vec
	for _, x := range xs {
		for _, y := range xs {
			for _, z := range xs {
				vs = append(vs, v3(x, y*1e-3, z*1e4))
			}
		}
	}
	mesh := func(n, seed int) []r3.Triangle {
		m := make([]r3.Triangle, n)
		for i := range m {
			a := (i*7 + seed*11) % len(vs)
			m[i] = r3.Triangle{vs[a], vs[(a+1+i%13)%len(vs)], vs[(a+17+i%29)%len(vs)]}
		}
		return m
	}
	create := func(path string, r render.Renderer) error {
		stdout := silence()
		defer stdout()
		return render.Create3MF(path, r)
	}
	max := t.N(60, 300)
	t.Par(max+1, func(n int) {
		for seed := 0; seed < 4; seed++ {
			t.Case(fmt.Sprintf("mesh of %d triangles, arrangement %d", n, seed), func(c *Case) {
				m := mesh(n, seed)
				for _, k := range []int{0, 1, 2, 7, 1023} {
					path := tempFile(t, ".3mf")
					if err := create(path, &chunked{m, k, k%2 == 0}); err != nil {
						c.Fail("%v", err)
					}
					got, err := read3MF(path)
					os.Remove(path)
					if err != nil {
						c.Fail("%v", err)
					}
					if len(got) != n {
						c.Fail("%d triangles, want %d", len(got), n)
					}
					for i := range got {
						if !sameF32(got[i], m[i]) {
							c.Fail("triangle %d is %v, want %v", i, got[i], m[i])
						}
					}
					c.Eval(1)
				}
				c.Obs(m)
			})
		}
	})
	// Vertices which are nearly the same, small and large.
	t.Par(9, func(i int) {
		d := []float64{1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 2e-7, 1e-9, 1e-20, 1e20}[i]
		t.Case(fmt.Sprintf("vertices %v apart", d), func(c *Case) {
			for _, o := range []r3.Vec{{}, v3(1, 1, 1), v3(-0.3, 20, 1e-3), v3(1000, 0.5, -1)} {
				var vs []r3.Vec
				for _, u := range append(dirs(), r3.Vec{}, v3(3, 0, 2)) {
					vs = append(vs, r3.Add(o, r3.Scale(d, u)))
				}
				m := make([]r3.Triangle, 400)
				for i := range m {
					m[i] = r3.Triangle{vs[i*5%len(vs)], vs[(i*11+i/7)%len(vs)], vs[(i*3+i/28)%len(vs)]}
				}
				path := tempFile(t, ".3mf")
				if err := create(path, &chunked{m, 0, true}); err != nil {
					c.Fail("%v", err)
				}
				got, err := read3MF(path)
				os.Remove(path)
				if err != nil || len(got) != len(m) {
					c.Fail("%d triangles, error %v", len(got), err)
				}
				for i := range got {
					if !sameF32(got[i], m[i]) {
						c.Fail("triangle %d is %v, want %v", i, got[i], m[i])
					}
				}
				c.Eval(1)
			}
			c.Obs(d)
		})
	})
	// More vertices than 16 bits count, all different (0) or shared by six triangles (1).
	// Fans of triangles around a vertex (2), and nearly so around all of them (3).
	t.Par(4, func(k int) {
		t.Case([]string{"70200 vertices", "70200 vertices, each in six triangles", "fans of 70000 triangles", "all triangles of 30 vertices"}[k], func(c *Case) {
			at := func(i int) r3.Vec { return v3(float64(i%270), float64(i/270)*0.5, float64(i*i%31)*0.25) }
			var m []r3.Triangle
			if k == 2 {
				for i := 0; i < 70000; i++ {
					hub := v3(-1, -2, -float64(i/35000))
					m = append(m, r3.Triangle{hub, at(i), at(i + 1)})
				}
			}
			for a := 0; k == 3 && a < 30; a++ {
				for b := 0; b < a; b++ {
					for d := 0; d < b; d++ {
						m = append(m, r3.Triangle{at(b * 7), at(a * 7), at(d * 7)})
					}
				}
			}
			for i := 0; k < 2 && i < 70200-271; i++ {
				if k == 0 && i%3 == 0 {
					m = append(m, r3.Triangle{at(i), at(i + 1), at(i + 2)})
				} else if k == 1 {
					m = append(m, r3.Triangle{at(i), at(i + 1), at(i + 270)}, r3.Triangle{at(i + 1), at(i + 271), at(i + 270)})
				}
			}
			path := tempFile(t, ".3mf")
			defer os.Remove(path)
			if err := create(path, &chunked{m, 0, true}); err != nil {
				c.Fail("%v", err)
			}
			got, err := read3MF(path)
			if err != nil || len(got) != len(m) {
				c.Fail("%d triangles, want %d, error %v", len(got), len(m), err)
			}
			for i := range got {
				if !sameF32(got[i], m[i]) {
					c.Fail("triangle %d is %v, want %v", i, got[i], m[i])
				}
			}
			c.Eval(1)
			c.Obs(k)
		})
	})
	// A closed mesh of the renderer.
	all := append(solids(), repoSolids()...)
	t.Par(len(all), func(i int) {
		t.Case("solid="+all[i].name, func(c *Case) {
			want := octree(c, all[i].s, 10)
			path := tempFile(t, ".3mf")
			defer os.Remove(path)
			if err := create(path, render.NewOctreeRenderer(all[i].s, 10)); err != nil {
				c.Fail("%v", err)
			}
			got, err := read3MF(path)
			if err != nil {
				c.Fail("%v", err)
			}
			if len(got) != len(want) {
				c.Fail("%d triangles, want %d", len(got), len(want))
			}
			for i := range got {
				if !sameF32(got[i], want[i]) {
					c.Fail("triangle %d is %v, want %v", i, got[i], want[i])
				}
			}
			c.Eval(1)
			c.Obs(len(got))
		})
	})
	for _, n := range []int{0, 4, 1500} {
		m := mesh(n, 1)
		path := tempFile(t, ".3mf")
		if err := create(path, &chunked{m, 0, true}); err != nil {
			t.Case(fmt.Sprintf("mesh of %d", n), func(c *Case) { c.Fail("%v", err) })
			return
		}
		st, err := os.Stat(path)
		os.Remove(path)
		if err != nil {
			continue
		}
		size := int(st.Size())
		step := t.N(1, 1)
		if n > 100 {
			step = t.N(37, 11)
		}
		for k := 0; k <= size+1; k++ {
			if k%step != 0 && k < size-8 {
				continue
			}
			t.Case(fmt.Sprintf("mesh of %d triangles with files limited to %d bytes", n, k), func(c *Case) {
				path := tempFile(t, ".3mf")
				defer os.Remove(path)
				var err error
				if e := limitFileSize(uint64(k), func() { err = create(path, &chunked{m, 0, true}) }); e != nil {
					return
				}
				c.Eval(1)
				c.Obs(n, k, err != nil)
				if (err == nil) != (k >= size) {
					c.Fail("a file of %d bytes: error %v", size, err)
				}
				if err == nil {
					got, err := read3MF(path)
					if err != nil || len(got) != n {
						c.Fail("%d triangles, error %v", len(got), err)
					}
				}
			})
		}
	}
	noTarget(t, "Create3MF", func(path string) error { return create(path, &chunked{mesh(5, 0), 0, true}) })
}
