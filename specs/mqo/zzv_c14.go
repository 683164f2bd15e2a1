//go:build go1.21

package mqo

func vSq(v Vector3) float32 { return v.X*v.X + v.Y*v.Y + v.Z*v.Z }

// smooth normals: one unit vector per vertex, nothing in the object changes
func Contract_Object_GetSmoothNormals(obj *Object) {
	VRequires(vWFMesh(obj))
	r := obj.GetSmoothNormals()
	VAssert("count", len(r) == len(obj.Vertexes))
	VAssert("unit", VForall(0, len(r), func(i int) bool { return VEq(vSq(r[i]), 1) }))
}

func vWFMesh(obj *Object) bool {
	return VForall(0, len(obj.Vertexes), func(i int) bool { return obj.Vertexes[i] != nil }) &&
		VForall(0, len(obj.Faces), func(i int) bool {
			return obj.Faces[i] != nil && VForall(0, len(obj.Faces[i].Verts), func(j int) bool {
				return 0 <= obj.Faces[i].Verts[j] && obj.Faces[i].Verts[j] < len(obj.Vertexes)
			})
		})
}

func Inv_Object_GetSmoothNormals__unit(normal []Vector3, k int) bool {
	return VForall(0, k, func(i int) bool { return VEq(vSq(normal[i]), 1) })
}

// completing normals: every face ends with one unit normal per corner; faces that had one per corner are untouched
func Lemma_NormalsCompleted(obj *Object, gfi, gi int) {
	VRequires(vWFMesh(obj))
	VRequires(VForall(0, len(obj.Faces), func(i int) bool {
		return VForall(0, i, func(j int) bool { return obj.Faces[i] != obj.Faces[j] })
	}))
	VRequires(0 <= gfi && gfi < len(obj.Faces))
	gf := obj.Faces[gfi]
	VRequires(0 <= gi && gi < len(gf.Verts))
	had := len(gf.Normals) == len(gf.Verts)
	var gold *Vector3
	if had {
		gold = gf.Normals[gi]
	}
	obj.FixhNormals()
	VAssert("faces_kept", obj.Faces[gfi] == gf)
	VAssert("one_per_corner", len(gf.Normals) == len(gf.Verts))
	VAssert("kept", !had || gf.Normals[gi] == gold)
	VAssert("unit", had || gf.Normals[gi] != nil && VEq(vSq(*gf.Normals[gi]), 1))
}

func Inv_Lemma_NormalsCompleted__st(gf *Face, gold *Vector3, had bool, gfi, gi, k int) bool {
	return (!had || len(gf.Normals) == len(gf.Verts) && gf.Normals[gi] == gold) &&
		(had || k <= gfi || len(gf.Normals) == len(gf.Verts) && gf.Normals[gi] != nil && VEq(vSq(*gf.Normals[gi]), 1))
}
func Inv_Lemma_NormalsCompleted__todo(gf *Face, had bool, gfi, k int) bool {
	return k > gfi || had == (len(gf.Normals) == len(gf.Verts))
}
func Inv_Lemma_NormalsCompleted__todo1(gf *Face, had bool, gfi, k1 int) bool {
	return k1 > gfi || k1 == gfi && !had || had == (len(gf.Normals) == len(gf.Verts))
}
func Inv_Lemma_NormalsCompleted__cur(f, gf *Face, gfi, k1 int) bool {
	return (k1 == gfi) == (f == gf) && len(f.Normals) == len(f.Verts)
}
func Inv_Lemma_NormalsCompleted__st1(gf *Face, gold *Vector3, had bool, gfi, gi, k, k1 int) bool {
	return (!had || len(gf.Normals) == len(gf.Verts) && gf.Normals[gi] == gold) &&
		(had || k1 < gfi || k1 == gfi && k <= gi || len(gf.Normals) == len(gf.Verts) && gf.Normals[gi] != nil && VEq(vSq(*gf.Normals[gi]), 1))
}
func Inv_Lemma_NormalsCompleted__normals(normals []Vector3, obj *Object) bool {
	return normals == nil || len(normals) == len(obj.Vertexes) && VForall(0, len(normals), func(i int) bool { return VEq(vSq(normals[i]), 1) })
}
