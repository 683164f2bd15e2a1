//go:build go1.21

package mqo

import "github.com/binzume/modelconv/geom"

// bounded stand-in: a face with n corners becomes n-2 faces with its material whose corners are corners of the
// face, each with the texture coordinate and the normal it had there; triangles stay the same faces, in order
func Bounded_TriangulatedFaces(vs []Vector3, sizes []uint8, uvs, normals, absent uint8) {
	VRequires(len(vs) > 2)
	o := NewObject("o")
	for i := range vs {
		o.Vertexes = append(o.Vertexes, &vs[i])
	}
	for k, s := range sizes {
		n := int(s % 8)
		f := &Face{Material: k + 1}
		for j := 0; j < n; j++ {
			f.Verts = append(f.Verts, (k+j)%len(vs))
			if uvs&(1<<(k%8)) != 0 {
				f.UVs = append(f.UVs, Vector2{X: float32(k), Y: float32(j)})
			}
			if normals&(1<<(k%8)) != 0 {
				nv := geom.NewVector3(float32(k), float32(j), 1)
				if uvs&(1<<(k%8)) != 0 && (k*3+j)%5 < int(absent%8) {
					nv = nil
				}
				f.Normals = append(f.Normals, nv)
			}
		}
		o.Faces = append(o.Faces, f)
	}
	src := append([]*Face{}, o.Faces...)
	old := VOld(o)
	o.Triangulate()
	VAssert("vertices_kept", len(o.Vertexes) == len(old.Vertexes))
	for i := range o.Vertexes {
		VAssert("vertices_kept", o.Vertexes[i] == &vs[i] && vs[i] == *old.Vertexes[i])
	}
	at := 0
	for k, f := range src {
		n := len(old.Faces[k].Verts)
		if n == 3 {
			VAssert("triangle_kept", at < len(o.Faces) && o.Faces[at] == f && len(f.Verts) == 3 && f.Material == k+1)
			at++
			continue
		}
		m := n - 2
		if m < 0 {
			m = 0
		}
		for ; m > 0; m-- {
			VAssert("enough_triangles", at < len(o.Faces))
			t := o.Faces[at]
			at++
			VAssert("material", t.Material == k+1)
			VAssert("three_corners", len(t.Verts) == 3 && len(t.UVs) == len(f.UVs)*3/n && len(t.Normals) == len(f.Normals)*3/n)
			var at3 [3]int
			for c := 0; c < 3; c++ {
				// the corner it is: told by the texture coordinate or the normal, else by the vertex
				j := -1
				if len(t.UVs) > 0 {
					j = int(t.UVs[c].Y)
					VAssert("uv", t.UVs[c].X == float32(k))
				} else if len(t.Normals) > 0 {
					j = int(t.Normals[c].Y)
				} else if n <= len(vs) {
					for x := 0; x < n; x++ {
						if old.Faces[k].Verts[x] == t.Verts[c] {
							j = x
						}
					}
				} else {
					continue
				}
				VAssert("corner", j >= 0 && j < n && t.Verts[c] == old.Faces[k].Verts[j])
				VAssert("normal", len(t.Normals) == 0 || t.Normals[c] == nil && old.Faces[k].Normals[j] == nil ||
					t.Normals[c] != nil && old.Faces[k].Normals[j] != nil && *t.Normals[c] == *old.Faces[k].Normals[j])
				at3[c] = j
			}
			if len(t.UVs) > 0 || len(t.Normals) > 0 || n <= len(vs) {
				a, b, c := at3[0], at3[1], at3[2]
				VAssert("winding", a < b && b < c || b < c && c < a || c < a && a < b)
			}
		}
	}
	VAssert("no_more_faces", at == len(o.Faces))
}
