//go:build go1.21

package mqo

// triangulating an object: every face has three corners of the mesh, with texture coordinates and normals for
// all of them or none; faces that are triangles stay as they are
func vTriangles(faces []*Face, n int) bool {
	return VForall(0, len(faces), func(i int) bool {
		f := faces[i]
		return f != nil && len(f.Verts) == 3 && 0 <= f.Verts[0] && f.Verts[0] < n && 0 <= f.Verts[1] && f.Verts[1] < n && 0 <= f.Verts[2] && f.Verts[2] < n &&
			(len(f.UVs) == 0 || len(f.UVs) == 3) && (len(f.Normals) == 0 || len(f.Normals) == 3)
	})
}

func vWFPoly(o *Object) bool {
	return VForall(0, len(o.Vertexes), func(i int) bool { return o.Vertexes[i] != nil }) &&
		VForall(0, len(o.Faces), func(i int) bool {
			f := o.Faces[i]
			return f != nil && (len(f.UVs) == 0 || len(f.UVs) == len(f.Verts)) && (len(f.Normals) == 0 || len(f.Normals) == len(f.Verts)) &&
				VForall(0, len(f.Verts), func(j int) bool { return 0 <= f.Verts[j] && f.Verts[j] < len(o.Vertexes) })
		})
}

func Lemma_ObjectTriangulated(o *Object, gi int) {
	VRequires(vWFPoly(o))
	VRequires(0 <= gi && gi < len(o.Vertexes))
	n := len(o.Vertexes)
	gp := o.Vertexes[gi]
	gv := *gp
	o.Triangulate()
	VAssert("vertices_kept", len(o.Vertexes) == n && o.Vertexes[gi] == gp && *gp == gv)
	VAssert("all_triangles", vTriangles(o.Faces, n))
}

func Inv_Object_Triangulate__nn(faces []*Face) bool {
	return VForall(0, len(faces), func(i int) bool { return faces[i] != nil })
}
func Inv_Object_Triangulate__three(faces []*Face) bool {
	return VForall(0, len(faces), func(i int) bool { return len(faces[i].Verts) == 3 })
}
func Inv_Object_Triangulate__uvs(faces []*Face) bool {
	return VForall(0, len(faces), func(i int) bool { return len(faces[i].UVs) == 0 || len(faces[i].UVs) == 3 })
}
func Inv_Object_Triangulate__nrm(faces []*Face) bool {
	return VForall(0, len(faces), func(i int) bool { return len(faces[i].Normals) == 0 || len(faces[i].Normals) == 3 })
}
func Inv_Object_Triangulate__r0(faces []*Face, o *Object) bool {
	return VForall(0, len(faces), func(i int) bool { return 0 <= faces[i].Verts[0] && faces[i].Verts[0] < len(o.Vertexes) })
}
func Inv_Object_Triangulate__r1(faces []*Face, o *Object) bool {
	return VForall(0, len(faces), func(i int) bool { return 0 <= faces[i].Verts[1] && faces[i].Verts[1] < len(o.Vertexes) })
}
func Inv_Object_Triangulate__r2(faces []*Face, o *Object) bool {
	return VForall(0, len(faces), func(i int) bool { return 0 <= faces[i].Verts[2] && faces[i].Verts[2] < len(o.Vertexes) })
}
func Inv_Object_Triangulate__poly(poly []*Vector3, k int) bool { return len(poly) == k }
func Inv_Object_Triangulate__polynn(poly []*Vector3) bool {
	return VForall(0, len(poly), func(i int) bool { return poly[i] != nil })
}
