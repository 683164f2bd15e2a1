//go:build go1.21

package mqo

// flipping a face reverses corner order, texture coordinates and normals together
func Lemma_FlipReverses(f *Face, gi int) {
	VRequires(VDisjoint(f.Verts, f.UVs) && VDisjoint(f.UVs, f.Normals) && VDisjoint(f.Verts, f.Normals))
	gn, gu, gm := len(f.Verts), len(f.UVs), len(f.Normals)
	VRequires(0 <= gi && gi < gn)
	gv := f.Verts[gi]
	gfu := f.UVs
	gfm := f.Normals
	f.Flip()
	VAssert("counts", len(f.Verts) == gn && len(f.UVs) == gu && len(f.Normals) == gm)
	VAssert("verts", f.Verts[gn-1-gi] == gv)
	_, _ = gfu, gfm
}

func Inv_Lemma_FlipReverses__ij(i, j, gn int) bool  { return i+j == gn-1 && 0 <= i }
func Inv_Lemma_FlipReverses__ij2(i, j, gu int) bool { return i+j == gu-1 && 0 <= i }
func Inv_Lemma_FlipReverses__ij3(i, j, gm int) bool { return i+j == gm-1 && 0 <= i }
func Inv_Lemma_FlipReverses__st(f *Face, gi, gn, gv, i int) bool {
	return (gi < i || gi > gn-1-i) && f.Verts[gn-1-gi] == gv || i <= gi && gi <= gn-1-i && f.Verts[gi] == gv
}
func Inv_Lemma_FlipReverses__end(f *Face, gi, gn, gv int) bool { return f.Verts[gn-1-gi] == gv }

func Lemma_FlipReversesUVs(f *Face, gi int) {
	VRequires(VDisjoint(f.Verts, f.UVs) && VDisjoint(f.UVs, f.Normals) && VDisjoint(f.Verts, f.Normals))
	gn, gu, gm := len(f.Verts), len(f.UVs), len(f.Normals)
	VRequires(0 <= gi && gi < gu)
	gv := f.UVs[gi]
	f.Flip()
	VAssert("counts", len(f.Verts) == gn && len(f.UVs) == gu && len(f.Normals) == gm)
	VAssert("uvs", f.UVs[gu-1-gi] == gv)
}

func Inv_Lemma_FlipReversesUVs__ij(i, j, gn int) bool                    { return i+j == gn-1 && 0 <= i }
func Inv_Lemma_FlipReversesUVs__ij2(i, j, gu int) bool                   { return i+j == gu-1 && 0 <= i }
func Inv_Lemma_FlipReversesUVs__ij3(i, j, gm int) bool                   { return i+j == gm-1 && 0 <= i }
func Inv_Lemma_FlipReversesUVs__before(f *Face, gi int, gv Vector2) bool { return f.UVs[gi] == gv }
func Inv_Lemma_FlipReversesUVs__st(f *Face, gi, gu int, gv Vector2, i int) bool {
	return (gi < i || gi > gu-1-i) && f.UVs[gu-1-gi] == gv || i <= gi && gi <= gu-1-i && f.UVs[gi] == gv
}
func Inv_Lemma_FlipReversesUVs__end(f *Face, gi, gu int, gv Vector2) bool {
	return f.UVs[gu-1-gi] == gv
}

func Lemma_FlipReversesNormals(f *Face, gi int) {
	VRequires(VDisjoint(f.Verts, f.UVs) && VDisjoint(f.UVs, f.Normals) && VDisjoint(f.Verts, f.Normals))
	gn, gu, gm := len(f.Verts), len(f.UVs), len(f.Normals)
	VRequires(0 <= gi && gi < gm)
	gv := f.Normals[gi]
	f.Flip()
	VAssert("counts", len(f.Verts) == gn && len(f.UVs) == gu && len(f.Normals) == gm)
	VAssert("normals", f.Normals[gm-1-gi] == gv)
}

func Inv_Lemma_FlipReversesNormals__ij(i, j, gn int) bool  { return i+j == gn-1 && 0 <= i }
func Inv_Lemma_FlipReversesNormals__ij2(i, j, gu int) bool { return i+j == gu-1 && 0 <= i }
func Inv_Lemma_FlipReversesNormals__ij3(i, j, gm int) bool { return i+j == gm-1 && 0 <= i }
func Inv_Lemma_FlipReversesNormals__before(f *Face, gi int, gv *Vector3) bool {
	return f.Normals[gi] == gv
}
func Inv_Lemma_FlipReversesNormals__st(f *Face, gi, gm int, gv *Vector3, i int) bool {
	return (gi < i || gi > gm-1-i) && f.Normals[gm-1-gi] == gv || i <= gi && gi <= gm-1-i && f.Normals[gi] == gv
}

// a clone has equal vertices in storage of its own and leaves the original alone
func Lemma_CloneVertices(o *Object, gi int) {
	VRequires(VForall(0, len(o.Vertexes), func(i int) bool { return o.Vertexes[i] != nil }))
	VRequires(VForall(0, len(o.Faces), func(i int) bool { return o.Faces[i] != nil }))
	VRequires(0 <= gi && gi < len(o.Vertexes))
	gp := o.Vertexes[gi]
	gv := *gp
	c := o.Clone()
	VAssert("count", len(c.Vertexes) == len(o.Vertexes))
	VAssert("equal", c.Vertexes[gi] != nil && *c.Vertexes[gi] == gv)
	VAssert("own_storage", c != o && c.Vertexes[gi] != gp && VFreshSlice(c.Vertexes))
	VAssert("original_kept", o.Vertexes[gi] == gp && *gp == gv)
	VAssert("attributes", c.Name == o.Name && c.UID == o.UID && c.Depth == o.Depth && c.Visible == o.Visible &&
		c.Mirror == o.Mirror && c.Patch == o.Patch && c.Shading == o.Shading)
}

func Inv_Lemma_CloneVertices__v(cp *Object, gi, k int, gp *Vector3) bool {
	return k <= gi || cp.Vertexes[gi] != nil && cp.Vertexes[gi] != gp
}
func Inv_Lemma_CloneVertices__eq(cp *Object, gi, k int, gv Vector3) bool {
	return k <= gi || *cp.Vertexes[gi] == gv
}
func Inv_Lemma_CloneVertices__w(cp *Object, gi int, gp *Vector3, gv Vector3) bool {
	return cp.Vertexes[gi] != nil && cp.Vertexes[gi] != gp && *cp.Vertexes[gi] == gv
}

func Lemma_CloneFaces(o *Object, gfi, gi int) {
	VRequires(VForall(0, len(o.Vertexes), func(i int) bool { return o.Vertexes[i] != nil }))
	VRequires(VForall(0, len(o.Faces), func(i int) bool { return o.Faces[i] != nil }))
	VRequires(0 <= gfi && gfi < len(o.Faces))
	gf := o.Faces[gfi]
	VRequires(0 <= gi && gi < len(gf.Verts))
	c := o.Clone()
	VAssert("count", len(c.Faces) == len(o.Faces))
	d := c.Faces[gfi]
	VAssert("material", d.Material == gf.Material)
	VAssert("counts", len(d.Verts) == len(gf.Verts) && len(d.UVs) == len(gf.UVs))
	VAssert("vert", d.Verts[gi] == gf.Verts[gi])
	VAssert("uv", gi >= len(gf.UVs) || d.UVs[gi] == gf.UVs[gi])
	VAssert("own_storage", d != gf && (len(d.Verts) == 0 || VDisjoint(d.Verts, gf.Verts)))
	VAssert("original_kept", o.Faces[gfi] == gf)
}

func Inv_Lemma_CloneFaces__f(cp *Object, gf *Face, gfi, gi, k int) bool {
	return k <= gfi || vCloned(cp.Faces[gfi], gf, gi)
}

func vCloned(d, f *Face, gi int) bool {
	return d != nil && d != f && VDisjoint(d.Verts, f.Verts) && d.Material == f.Material && len(d.Verts) == len(f.Verts) &&
		len(d.UVs) == len(f.UVs) && d.Verts[gi] == f.Verts[gi] && (gi >= len(f.UVs) || d.UVs[gi] == f.UVs[gi])
}

// the weight table of a bone: one record per object, found by object id
func vWeightsWF(b *Bone) bool {
	return VForallKey(b.weightMap, func(o int) bool {
		w := b.weightMap[o]
		return w != nil && w.ObjectID == o && VExists(0, len(b.Weights), func(i int) bool { return b.Weights[i] == w })
	})
}

// setting a vertex weight adds it to the record of its object, at the end, and touches no other record
func Lemma_SetVertexWeight(b *Bone, objectID, vertID int, weight float32, gi, gj int) {
	VRequires(vWeightsWF(b))
	VRequires(VForall(0, len(b.Weights), func(i int) bool {
		return b.Weights[i] != nil && b.weightMap[b.Weights[i].ObjectID] == b.Weights[i]
	}))
	VRequires(VForall(0, len(b.Weights), func(i int) bool {
		return VForall(0, len(b.Weights), func(j int) bool { return i == j || VDisjoint(b.Weights[i].Vertexes, b.Weights[j].Vertexes) })
	}))
	VRequires(0 <= gi && gi < len(b.Weights) && 0 <= gj && gj < len(b.Weights[gi].Vertexes))
	n := len(b.Weights)
	w := b.Weights[gi]
	nv := len(w.Vertexes)
	v := w.Vertexes[gj]
	r := b.SetVertexWeight(objectID, vertID, weight)
	VAssert("result", r != nil && r.VertexID == vertID && VEq(r.Weight, weight))
	VAssert("kept", b.Weights[gi] == w && w.Vertexes[gj] == v)
	VAssert("grows", w.ObjectID == objectID && len(w.Vertexes) == nv+1 && w.Vertexes[nv] == r || w.ObjectID != objectID && len(w.Vertexes) == nv)
	VAssert("records", len(b.Weights) == n || len(b.Weights) == n+1 && b.Weights[n].ObjectID == objectID &&
		len(b.Weights[n].Vertexes) == 1 && b.Weights[n].Vertexes[0] == r)
	VAssert("table", vWeightsWF(b))
	VAssert("registered", b.weightMap[b.Weights[gi].ObjectID] == b.Weights[gi])
	VAssert("new_registered", b.weightMap[b.Weights[len(b.Weights)-1].ObjectID] == b.Weights[len(b.Weights)-1])
}

func Lemma_SetFirstVertexWeight(b *Bone, objectID, vertID int, weight float32) {
	VRequires(len(b.Weights) == 0 && b.weightMap == nil)
	r := b.SetVertexWeight(objectID, vertID, weight)
	VAssert("record", r != nil && r.VertexID == vertID && VEq(r.Weight, weight) && len(b.Weights) == 1 && b.Weights[0].ObjectID == objectID &&
		len(b.Weights[0].Vertexes) == 1 && b.Weights[0].Vertexes[0] == r)
	VAssert("table", b.weightMap[objectID] == b.Weights[0])
}
