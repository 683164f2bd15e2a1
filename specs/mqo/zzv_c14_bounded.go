//go:build go1.21

package mqo

import (
	"math"

	"github.com/binzume/modelconv/geom"
)

// bounded stand-in: the smooth normal of a vertex is the normalised sum, over the corners at it, of the given
// normal or else of the unit normal of the corner
func Bounded_SmoothNormals(vs []Vector3, idx []uint8, given uint8, fix bool) {
	VRequires(len(vs) > 2 && len(idx) > 2)
	o := NewObject("o")
	for i := range vs {
		o.Vertexes = append(o.Vertexes, &vs[i])
	}
	for at := 0; at+3 <= len(idx); {
		n := 3 + int(idx[at])%3
		if at+n > len(idx) {
			n = 3
		}
		f := &Face{}
		for j := 0; j < n; j++ {
			f.Verts = append(f.Verts, int(idx[at+j])%len(vs))
		}
		switch int(given) % 4 {
		case 1:
			for j := range f.Verts {
				f.Normals = append(f.Normals, geom.NewVector3(float32(j), 1, float32(at)))
			}
		case 2:
			f.Normals = append(f.Normals, nil, geom.NewVector3(0, float32(at), 3))
		case 3:
			if at%2 == 0 {
				for range f.Verts {
					f.Normals = append(f.Normals, geom.NewVector3(0, 0, 1))
				}
			}
		}
		o.Faces = append(o.Faces, f)
		at += n
	}
	old := VOld(o)
	want := make([][3]float64, len(vs))
	near := make([]bool, len(vs))
	for _, f := range old.Faces {
		n := len(f.Verts)
		for j, v := range f.Verts {
			var c [3]float64
			if j < len(f.Normals) && f.Normals[j] != nil {
				c = [3]float64{float64(f.Normals[j].X), float64(f.Normals[j].Y), float64(f.Normals[j].Z)}
			} else {
				p, a, b := old.Vertexes[v], old.Vertexes[f.Verts[(j+n-1)%n]], old.Vertexes[f.Verts[(j+1)%n]]
				x := [3]float64{float64(a.X - p.X), float64(a.Y - p.Y), float64(a.Z - p.Z)}
				y := [3]float64{float64(b.X - p.X), float64(b.Y - p.Y), float64(b.Z - p.Z)}
				c = [3]float64{x[1]*y[2] - x[2]*y[1], x[2]*y[0] - x[0]*y[2], x[0]*y[1] - x[1]*y[0]}
				l := math.Sqrt(c[0]*c[0] + c[1]*c[1] + c[2]*c[2])
				if l == 0 {
					c = [3]float64{1, 0, 0}
				} else {
					if l < 1e-2 {
						near[v] = true
					}
					c = [3]float64{c[0] / l, c[1] / l, c[2] / l}
				}
			}
			for k := 0; k < 3; k++ {
				want[v][k] += c[k]
			}
		}
	}
	check := func(v int, r *Vector3) {
		if near[v] {
			return
		}
		l := math.Sqrt(want[v][0]*want[v][0] + want[v][1]*want[v][1] + want[v][2]*want[v][2])
		if l < 1e-2 {
			VAssert("unit", VEq(vSq(*r), 1))
			return
		}
		VAssert("smooth_normal", VEq(float64(r.X), want[v][0]/l) && VEq(float64(r.Y), want[v][1]/l) && VEq(float64(r.Z), want[v][2]/l))
	}
	if !fix {
		r := o.GetSmoothNormals()
		VAssert("one_per_vertex", len(r) == len(vs))
		for v := range r {
			check(v, &r[v])
		}
	} else {
		o.FixhNormals()
		for i, f := range o.Faces {
			VAssert("one_per_corner", len(f.Normals) == len(f.Verts))
			for j, n := range f.Normals {
				if of := old.Faces[i]; len(of.Normals) == len(of.Verts) {
					VAssert("given_kept", *n == *of.Normals[j])
				} else {
					VAssert("present", n != nil)
					check(f.Verts[j], n)
				}
			}
		}
	}
	for i := range o.Faces {
		VAssert("faces_kept", len(o.Faces[i].Verts) == len(old.Faces[i].Verts))
		for j := range o.Faces[i].Verts {
			VAssert("faces_kept", o.Faces[i].Verts[j] == old.Faces[i].Verts[j])
		}
	}
	for i := range vs {
		VAssert("vertices_kept", vs[i] == *old.Vertexes[i])
	}
}
