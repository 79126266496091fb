package main

import (
	"archive/zip"
	"bytes"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"sync/atomic"

	"github.com/soypat/sdf/render"
	"gonum.org/v1/gonum/spatial/r3"
)

var errScript = errors.New("script error")

type step struct {
	n   int   // triangles of this step
	err error // returned together with the last of them
}

// scripted is a Renderer which returns the given steps. It only returns what
// fits in the buffer and is otherwise free to return less, as any reader is.
type scripted struct {
	steps []step
	next  int // number of the next triangle
	after int // reads after the end
}

func numbered(i int) r3.Triangle {
	x := float64(i)
	return r3.Triangle{v3(x, 0, 1), v3(x+1, 0, 0.5), v3(x, 1, 0.25+float64(i%7))}
}

func (s *scripted) ReadTriangles(dst []r3.Triangle) (n int, err error) {
	if len(s.steps) == 0 {
		s.after++
		if s.after > 10 {
			panic("reads after the end of the script")
		}
		return 0, io.EOF
	}
	st := &s.steps[0]
	for n < len(dst) && st.n > 0 {
		dst[n] = numbered(s.next)
		s.next++
		n++
		st.n--
	}
	// what lies beyond n is scratch space
	for i := n; i < len(dst) && i < n+3; i++ {
		dst[i] = r3.Triangle{v3(-1e9, -1e9, float64(i)), v3(-2e9, 0, 0), v3(0, 0, -3e9)}
	}
	if st.n == 0 {
		err = st.err
		s.steps = s.steps[1:]
	}
	return n, err
}

func tempFile(t *T, ext string) string {
	return filepath.Join(t.scratch, fmt.Sprintf("f%d%s", atomic.AddInt64(&fileSeq, 1), ext))
}

var fileSeq int64

func runC02(t *T) {
	var scripts [][]step
	depth := t.N(3, 4)
	ks := []int{0, 1, 2, 3, 700}
	var rec func(prefix []step)
	rec = func(prefix []step) {
		for _, k := range ks {
			for _, e := range []error{io.EOF, errScript} {
				scripts = append(scripts, append(append([]step{}, prefix...), step{k, e}))
			}
		}
		if len(prefix) == depth {
			return
		}
		for _, k := range ks {
			rec(append(append([]step{}, prefix...), step{k, nil}))
		}
	}
	rec(nil)
	// lengths around the buffer sizes of the consumers
	for _, k := range []int{654, 655, 656, 1023, 1024, 1025, 1310, 1311, 2048, 4096, 4097, 16384, 16385, 40000, 65536, 131077} {
		for _, e := range []error{io.EOF, errScript} {
			scripts = append(scripts, []step{{k, e}}, []step{{k, nil}, {0, e}}, []step{{1, nil}, {k, nil}, {2, e}}, []step{{k, nil}, {k, e}})
		}
	}
	// any number of reads of nothing or of little
	for _, k := range []int{0, 1} {
		for _, n := range []int{50, 99, 100, 101, 102, 128, 129, 1000, 1025, 5000} {
			sc := []step{{3, nil}}
			for i := 0; i < n; i++ {
				sc = append(sc, step{k, nil})
			}
			for _, e := range []error{io.EOF, errScript} {
				scripts = append(scripts, append(append([]step{}, sc...), step{0, e}), append(append([]step{}, sc...), step{5, e}))
			}
		}
	}
	// errors which are not io.EOF, though similar
	for _, e := range []error{io.ErrUnexpectedEOF, io.ErrNoProgress, io.ErrShortBuffer, io.ErrShortWrite, io.ErrClosedPipe, os.ErrClosed, os.ErrNotExist, errors.New("EOF")} {
		for _, k := range []int{0, 1, 700, 1024, 3000} {
			scripts = append(scripts, []step{{k, e}}, []step{{k, nil}, {0, e}}, []step{{2, nil}, {k, e}}, []step{{5000, nil}, {k, nil}, {0, nil}, {1, e}})
		}
	}
	t.Par(len(scripts), func(i int) {
		sc := scripts[i]
		key := fmt.Sprint("script")
		total := 0
		var end error
		for i, s := range sc {
			if i > 8 && i < len(sc)-1 && s == sc[i-1] {
				key += "."
			} else {
				key += fmt.Sprintf(" %d,%v", s.n, s.err)
			}
			total += s.n
			end = s.err
		}
		t.Case(key, func(c *Case) {
			mk := func() *scripted { return &scripted{steps: append([]step{}, sc...)} }
			want := make([]r3.Triangle, total)
			for i := range want {
				want[i] = numbered(i)
			}
			check := func(who string, err error) bool {
				if end == io.EOF {
					if err != nil {
						c.Fail("%s: %v", who, err)
					}
					return true
				}
				if !errors.Is(err, end) {
					c.Fail("%s: renderer error lost, got %v", who, err)
				}
				return false
			}
			c.States(len(sc) + 1)
			c.Trans(len(sc))
			c.Trace(3)
			got, err := render.RenderAll(mk())
			check("RenderAll", err)
			if len(got) != len(want) || (len(want) > 0 && !reflect.DeepEqual(got, want)) {
				c.Fail("RenderAll: got %d triangles, want %d in order", len(got), len(want))
			}
			c.Obs(total, end)

			path := tempFile(t, ".stl")
			defer os.Remove(path)
			err = render.CreateSTL(path, mk())
			if total > 0 || end != io.EOF {
				if check("CreateSTL", err) {
					b, err := os.ReadFile(path)
					if err != nil {
						c.Fail("%v", err)
					}
					var w bytes.Buffer
					if err := render.WriteSTL(&w, want); err != nil {
						c.Fail("WriteSTL: %v", err)
					}
					if !bytes.Equal(b, w.Bytes()) {
						c.Fail("CreateSTL wrote %d bytes, which are not the %d of WriteSTL of the same triangles", len(b), w.Len())
					}
				}
			}
			if total > 5000 {
				return
			}
			path3 := tempFile(t, ".3mf")
			defer os.Remove(path3)
			stdout := silence()
			err = render.Create3MF(path3, mk())
			stdout()
			if check("Create3MF", err) {
				m, err := read3MF(path3)
				if err != nil {
					c.Fail("Create3MF: %v", err)
				}
				if len(m) != total {
					c.Fail("Create3MF: %d triangles, want %d", len(m), total)
				}
				for i := range m {
					if m[i] != want[i] {
						c.Fail("Create3MF: triangle %d is %v, want %v", i, m[i], want[i])
					}
				}
			}
		})
	})
}

// read3MF reads the triangles of the only object of a 3MF file.
func read3MF(path string) ([]r3.Triangle, error) {
	z, err := zip.OpenReader(path)
	if err != nil {
		return nil, err
	}
	defer z.Close()
	parts := map[string][]byte{}
	for _, f := range z.File {
		r, err := f.Open()
		if err != nil {
			return nil, err
		}
		b, err := io.ReadAll(r)
		if err != nil {
			return nil, err
		}
		parts[f.Name] = b
	}
	var rels struct {
		Relationship []struct {
			Target string `xml:",attr"`
			ID     string `xml:"Id,attr"`
			Type   string `xml:",attr"`
		}
	}
	if err := xml.Unmarshal(parts["_rels/.rels"], &rels); err != nil {
		return nil, fmt.Errorf("relationships: %w", err)
	}
	target := ""
	for _, r := range rels.Relationship {
		if strings.HasSuffix(r.Type, "/3dmodel") {
			target = strings.TrimPrefix(r.Target, "/")
		}
	}
	if len(parts["[Content_Types].xml"]) == 0 {
		return nil, errors.New("no content types")
	}
	var m struct {
		XMLName   xml.Name `xml:"model"`
		Unit      string   `xml:"unit,attr"`
		Resources struct {
			Objects []struct {
				ID   int `xml:"id,attr"`
				Mesh struct {
					V []struct {
						X float64 `xml:"x,attr"`
						Y float64 `xml:"y,attr"`
						Z float64 `xml:"z,attr"`
					} `xml:"vertices>vertex"`
					T []struct {
						V1 int `xml:"v1,attr"`
						V2 int `xml:"v2,attr"`
						V3 int `xml:"v3,attr"`
					} `xml:"triangles>triangle"`
				} `xml:"mesh"`
			} `xml:"object"`
		} `xml:"resources"`
		Build struct {
			Item []struct {
				ObjectID int `xml:"objectid,attr"`
			} `xml:"item"`
		} `xml:"build"`
	}
	if err := xml.Unmarshal(parts[target], &m); err != nil {
		return nil, fmt.Errorf("model %q: %w", target, err)
	}
	if m.Unit != "millimeter" {
		return nil, fmt.Errorf("unit %q", m.Unit)
	}
	if len(m.Resources.Objects) != 1 || len(m.Build.Item) != 1 || m.Build.Item[0].ObjectID != m.Resources.Objects[0].ID {
		return nil, fmt.Errorf("objects and build items do not match: %d objects, build %v", len(m.Resources.Objects), m.Build.Item)
	}
	o := m.Resources.Objects[0].Mesh
	seen := map[r3.Vec]bool{}
	for _, v := range o.V {
		p := v3(v.X, v.Y, v.Z)
		if seen[p] {
			return nil, fmt.Errorf("vertex %v is listed twice", p)
		}
		seen[p] = true
	}
	out := make([]r3.Triangle, len(o.T))
	for i, tr := range o.T {
		for j, k := range []int{tr.V1, tr.V2, tr.V3} {
			if k < 0 || k >= len(o.V) {
				return nil, fmt.Errorf("triangle %d refers to vertex %d of %d", i, k, len(o.V))
			}
			out[i][j] = v3(o.V[k].X, o.V[k].Y, o.V[k].Z)
		}
	}
	return out, nil
}
