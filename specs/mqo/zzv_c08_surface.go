//go:build go1.21

package mqo

// The surface is kept: told by material numbers and vertex indexes, every triangle of the result (gi is any of them)
// lies within the face it comes from. gcnt[k] counts the triangles of the faces before face k, gpos[v] is the corner at
// which a face has vertex v.
func vNumbered(o *Object, gcnt, gpos []int) bool {
	return len(gcnt) == len(o.Faces)+1 && gcnt[0] == 0 && len(gpos) == len(o.Vertexes) &&
		VForall(0, len(o.Faces), func(k int) bool {
			n := len(o.Faces[k].Verts)
			return o.Faces[k].Material == k && (n < 3 && gcnt[k+1] == gcnt[k] || n >= 3 && gcnt[k+1] == gcnt[k]+n-2)
		}) &&
		VForall(0, len(o.Faces), func(k int) bool {
			return VForall(0, len(o.Faces[k].Verts), func(j int) bool { return gpos[o.Faces[k].Verts[j]] == j })
		})
}

func vAtCorner(v int, verts, gpos []int) bool {
	return 0 <= v && v < len(gpos) && 0 <= gpos[v] && gpos[v] < len(verts) && verts[gpos[v]] == v
}
func vCyc(a, b, c int) bool { return a < b && b < c || b < c && c < a || c < a && a < b }

func vTriOf(t *Face, gfaces []*Face) bool {
	return t != nil && 0 <= t.Material && t.Material < len(gfaces)
}
func vTriUV(t, f *Face, gpos []int, c int) bool {
	return len(f.UVs) == 0 && len(t.UVs) == 0 || len(f.UVs) > 0 && len(t.UVs) == 3 && t.UVs[c] == f.UVs[gpos[t.Verts[c]]]
}
func vTriNormal(t, f *Face, gpos []int, c int) bool {
	return len(f.Normals) == 0 && len(t.Normals) == 0 || len(f.Normals) > 0 && len(t.Normals) == 3 && t.Normals[c] == f.Normals[gpos[t.Verts[c]]]
}

// the triangles of a face take its place, their corners are corners of the face in its cyclic order with the texture
// coordinate and normal (or its absence) of that corner; triangles stay what they are
func Lemma_TriangulatedSurface(o *Object, gcnt, gpos []int, gi int) {
	VRequires(vWFPoly(o))
	VRequires(vNumbered(o, gcnt, gpos))
	VRequires(0 <= gi && gi < gcnt[len(o.Faces)])
	gfaces := o.Faces
	o.Triangulate()
	VAssert("count", len(o.Faces) == gcnt[len(gfaces)])
	t := o.Faces[gi]
	VAssert("material", vTriOf(t, gfaces))
	f := gfaces[t.Material]
	_ = f
	VAssert("order", gcnt[t.Material] <= gi && gi < gcnt[t.Material+1])
	VAssert("triangles_kept", len(f.Verts) != 3 || t == f)
	VAssert("three", len(t.Verts) == 3)
	VAssert("corner0", vAtCorner(t.Verts[0], f.Verts, gpos))
	VAssert("corner1", vAtCorner(t.Verts[1], f.Verts, gpos))
	VAssert("corner2", vAtCorner(t.Verts[2], f.Verts, gpos))
	VAssert("winding", vCyc(gpos[t.Verts[0]], gpos[t.Verts[1]], gpos[t.Verts[2]]))
	VAssert("uv0", vTriUV(t, f, gpos, 0))
	VAssert("uv1", vTriUV(t, f, gpos, 1))
	VAssert("uv2", vTriUV(t, f, gpos, 2))
	VAssert("normal0", vTriNormal(t, f, gpos, 0))
	VAssert("normal1", vTriNormal(t, f, gpos, 1))
	VAssert("normal2", vTriNormal(t, f, gpos, 2))
}

func Inv_Lemma_TriangulatedSurface__n0(faces []*Face, gcnt []int, k int) bool {
	return len(faces) == gcnt[k]
}
func Inv_Lemma_TriangulatedSurface__n1(faces []*Face, gcnt []int, k1 int) bool {
	return len(faces) == gcnt[k1]
}
func Inv_Lemma_TriangulatedSurface__n2(faces []*Face, gcnt []int, k1, k int) bool {
	return len(faces) == gcnt[k1]+k
}
func Inv_Lemma_TriangulatedSurface__poly(poly []*Vector3, k int) bool { return len(poly) == k }
func Inv_Lemma_TriangulatedSurface__polynn(poly []*Vector3) bool {
	return VForall(0, len(poly), func(i int) bool { return poly[i] != nil })
}
func Inv_Lemma_TriangulatedSurface__mat(faces, gfaces []*Face, gi int) bool {
	return len(faces) <= gi || vTriOf(faces[gi], gfaces)
}
func Inv_Lemma_TriangulatedSurface__order(faces, gfaces []*Face, gcnt []int, gi int) bool {
	if len(faces) <= gi {
		return true
	}
	t := faces[gi]
	f := gfaces[t.Material]
	_ = f
	return gcnt[t.Material] <= gi && gi < gcnt[t.Material+1]
}
func Inv_Lemma_TriangulatedSurface__triangles_kept(faces, gfaces []*Face, gi int) bool {
	if len(faces) <= gi {
		return true
	}
	t := faces[gi]
	f := gfaces[t.Material]
	_ = f
	return len(f.Verts) != 3 || t == f
}
func Inv_Lemma_TriangulatedSurface__three(faces, gfaces []*Face, gi int) bool {
	if len(faces) <= gi {
		return true
	}
	t := faces[gi]
	f := gfaces[t.Material]
	_ = f
	return len(t.Verts) == 3
}
func Inv_Lemma_TriangulatedSurface__corner0(faces, gfaces []*Face, gpos []int, gi int) bool {
	if len(faces) <= gi {
		return true
	}
	t := faces[gi]
	f := gfaces[t.Material]
	_ = f
	return vAtCorner(t.Verts[0], f.Verts, gpos)
}
func Inv_Lemma_TriangulatedSurface__corner1(faces, gfaces []*Face, gpos []int, gi int) bool {
	if len(faces) <= gi {
		return true
	}
	t := faces[gi]
	f := gfaces[t.Material]
	_ = f
	return vAtCorner(t.Verts[1], f.Verts, gpos)
}
func Inv_Lemma_TriangulatedSurface__corner2(faces, gfaces []*Face, gpos []int, gi int) bool {
	if len(faces) <= gi {
		return true
	}
	t := faces[gi]
	f := gfaces[t.Material]
	_ = f
	return vAtCorner(t.Verts[2], f.Verts, gpos)
}
func Inv_Lemma_TriangulatedSurface__winding(faces, gfaces []*Face, gpos []int, gi int) bool {
	if len(faces) <= gi {
		return true
	}
	t := faces[gi]
	f := gfaces[t.Material]
	_ = f
	return vCyc(gpos[t.Verts[0]], gpos[t.Verts[1]], gpos[t.Verts[2]])
}
func Inv_Lemma_TriangulatedSurface__uv0(faces, gfaces []*Face, gpos []int, gi int) bool {
	if len(faces) <= gi {
		return true
	}
	t := faces[gi]
	f := gfaces[t.Material]
	_ = f
	return vTriUV(t, f, gpos, 0)
}
func Inv_Lemma_TriangulatedSurface__uv1(faces, gfaces []*Face, gpos []int, gi int) bool {
	if len(faces) <= gi {
		return true
	}
	t := faces[gi]
	f := gfaces[t.Material]
	_ = f
	return vTriUV(t, f, gpos, 1)
}
func Inv_Lemma_TriangulatedSurface__uv2(faces, gfaces []*Face, gpos []int, gi int) bool {
	if len(faces) <= gi {
		return true
	}
	t := faces[gi]
	f := gfaces[t.Material]
	_ = f
	return vTriUV(t, f, gpos, 2)
}
func Inv_Lemma_TriangulatedSurface__normal0(faces, gfaces []*Face, gpos []int, gi int) bool {
	if len(faces) <= gi {
		return true
	}
	t := faces[gi]
	f := gfaces[t.Material]
	_ = f
	return vTriNormal(t, f, gpos, 0)
}
func Inv_Lemma_TriangulatedSurface__normal1(faces, gfaces []*Face, gpos []int, gi int) bool {
	if len(faces) <= gi {
		return true
	}
	t := faces[gi]
	f := gfaces[t.Material]
	_ = f
	return vTriNormal(t, f, gpos, 1)
}
func Inv_Lemma_TriangulatedSurface__normal2(faces, gfaces []*Face, gpos []int, gi int) bool {
	if len(faces) <= gi {
		return true
	}
	t := faces[gi]
	f := gfaces[t.Material]
	_ = f
	return vTriNormal(t, f, gpos, 2)
}
