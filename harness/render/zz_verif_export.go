package render

import (
	"io"

	"github.com/soypat/sdf"
	"gonum.org/v1/gonum/spatial/r3"
)

// Overlay-only access to what the package's own tests use.

// ZZConcurrent returns an octree renderer which reads with n goroutines.
func ZZConcurrent(s sdf.SDF3, cells, n int) Renderer {
	oct := NewOctreeRenderer(s, cells)
	oct.concurrent = n
	return oct
}

// ZZReadSTL is the package's binary STL reader.
func ZZReadSTL(r io.Reader) ([]r3.Triangle, error) { return readBinarySTL(r) }

// ZZNormalMismatch is the error returned by ZZReadSTL together with a valid model.
var ZZNormalMismatch = errCalculatedNormalMismatch
