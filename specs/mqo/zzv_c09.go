//go:build go1.21

package mqo

func vWFObj(o *Object) bool {
	return VForall(0, len(o.Vertexes), func(i int) bool { return o.Vertexes[i] != nil }) &&
		VForall(0, len(o.Faces), func(i int) bool {
			return o.Faces[i] != nil && VDisjoint(o.Vertexes, o.Faces[i].Normals) &&
				VForall(0, i, func(j int) bool {
					return o.Faces[i] != o.Faces[j] && VDisjoint(o.Faces[i].Normals, o.Faces[j].Normals)
				})
		})
}

// every vertex moves to its image, the vertex list keeps its length
func Lemma_ObjectVertices(o *Object, m *Matrix4, i int) {
	VRequires(vWFObj(o) && 0 <= i && i < len(o.Vertexes))
	n := len(o.Vertexes)
	v := *o.Vertexes[i]
	o.ApplyTransform(m)
	VAssert("count", len(o.Vertexes) == n)
	VAssert("image", vIsImage(m, v, o.Vertexes[i]))
}

func Inv_Lemma_ObjectVertices__done(o *Object, m *Matrix4, k, i int, v Vector3) bool {
	return k <= i || vIsImage(m, v, o.Vertexes[i])
}
func Inv_Lemma_ObjectVertices__kept(o *Object, m *Matrix4, i int, v Vector3) bool {
	return vIsImage(m, v, o.Vertexes[i])
}

// a normal transforms so that it stays perpendicular to the transformed surface: its dot product with
// the image of every direction d equals the old dot product with d
func Lemma_NormalMatrix(m *Matrix4, n, d *Vector3) {
	VRequires(m[3] == 0 && m[7] == 0 && m[11] == 0 && m[15] == 1)
	rs := m.Clone()
	rs[12], rs[13], rs[14] = 0, 0, 0
	VRequires(rs.Det() != 0)
	nt := rs.Inverse().Transposed()
	p := nt.ApplyTo(n)
	q := rs.ApplyTo(d)
	VAssert("perpendicular", VEq(p.X*q.X+p.Y*q.Y+p.Z*q.Z, n.X*d.X+n.Y*d.Y+n.Z*d.Z))
}

func Lemma_ObjectNormals(o *Object, m *Matrix4, gfi, gi int) {
	VRequires(vWFObj(o) && 0 <= gfi && gfi < len(o.Faces))
	VRequires(0 <= gi && gi < len(o.Faces[gfi].Normals))
	gf := o.Faces[gfi]
	count := len(gf.Normals)
	rs := m.Clone()
	rs[12], rs[13], rs[14] = 0, 0, 0
	gnt := rs.Inverse().Transposed()
	wasNil := gf.Normals[gi] == nil
	var gn Vector3
	if !wasNil {
		gn = *gf.Normals[gi]
	}
	o.ApplyTransform(m)
	VAssert("count", o.Faces[gfi] == gf && len(gf.Normals) == count)
	VAssert("nil_kept", !wasNil || gf.Normals[gi] == nil)
	VAssert("moved", wasNil || vIsImage(gnt, gn, gf.Normals[gi]))
}

func vNormalState(gf *Face, gi int, gn Vector3, wasNil, done bool, gnt *Matrix4) bool {
	p := gf.Normals[gi]
	return wasNil && p == nil || !wasNil && p != nil && (!done && *p == gn || done && vIsImage(gnt, gn, p))
}
func Inv_Lemma_ObjectNormals__before(gf *Face, gi int, gn Vector3, wasNil bool, gnt *Matrix4) bool {
	return vNormalState(gf, gi, gn, wasNil, false, gnt)
}
func Inv_Lemma_ObjectNormals__outer(gf *Face, gi, k, gfi int, gn Vector3, wasNil bool, gnt *Matrix4) bool {
	return vNormalState(gf, gi, gn, wasNil, k > gfi, gnt)
}
func Inv_Lemma_ObjectNormals__inner(gf *Face, gi, k, k1, gfi int, gn Vector3, wasNil bool, gnt *Matrix4) bool {
	return vNormalState(gf, gi, gn, wasNil, k1 > gfi || k1 == gfi && k > gi, gnt)
}

func Lemma_ObjectInternal(o *Object, m *Matrix4) {
	VRequires(vWFObj(o))
	t := o.InternalTransform
	var want *Matrix4
	if t != nil {
		want = m.Mul(t)
	}
	o.ApplyTransform(m)
	VAssert("internal", t == nil && o.InternalTransform == nil || t != nil && *o.InternalTransform == *want)
}

func Lemma_BonePositions(p *BonePlugin, m *Matrix4, gi int) {
	bones := p.BoneSet2.Bones
	VRequires(VForall(0, len(bones), func(i int) bool { return bones[i] != nil }))
	VRequires(0 <= gi && gi < len(bones))
	gb := bones[gi]
	VRequires(VForall(0, len(bones), func(i int) bool { return i == gi || bones[i] != gb }))
	gv := gb.Pos.Vector3
	p.ApplyTransform(m)
	VAssert("same_bones", len(p.BoneSet2.Bones) == len(bones) && p.BoneSet2.Bones[gi] == gb)
	VAssert("image", vIsImage(m, gv, &gb.Pos.Vector3))
}

func Inv_Lemma_BonePositions__pos(gb *Bone, gv Vector3, k, gi int, m *Matrix4) bool {
	return k <= gi && gb.Pos.Vector3 == gv || k > gi && vIsImage(m, gv, &gb.Pos.Vector3)
}

func vAbs(x float32) float32 {
	if x < 0 {
		return -x
	}
	return x
}

func Lemma_PhysicsShapes(p *PhysicsPlugin, m *Matrix4, gbi, gsi int) {
	VRequires(VForall(0, len(p.Bodies), func(i int) bool {
		return p.Bodies[i] != nil && VForall(0, len(p.Bodies[i].Shapes), func(j int) bool { return p.Bodies[i].Shapes[j] != nil })
	}))
	VRequires(0 <= gbi && gbi < len(p.Bodies) && 0 <= gsi && gsi < len(p.Bodies[gbi].Shapes))
	gs := p.Bodies[gbi].Shapes[gsi]
	VRequires(VForall(0, len(p.Bodies), func(i int) bool {
		return VForall(0, len(p.Bodies[i].Shapes), func(j int) bool { return i == gbi && j == gsi || p.Bodies[i].Shapes[j] != gs })
	}))
	_, _, gscale := m.Decompose()
	gpos := Vector3(gs.Position)
	gsize := gs.Size
	grot := gs.Rotation
	p.ApplyTransform(m)
	q := Vector3(gs.Position)
	VAssert("position_image", vIsImage(m, gpos, &q))
	VAssert("size_scaled", vScaled(gs.Size, gsize, gscale))
	VAssert("rotation_kept", gs.Rotation == grot)
}

func vScaled(a, b Vector3XmlAttr, s *Vector3) bool {
	return VEq(a.X, vAbs(b.X*s.X)) && VEq(a.Y, vAbs(b.Y*s.Y)) && VEq(a.Z, vAbs(b.Z*s.Z))
}

func vShapeState(gs *PhysicsShape, gpos Vector3, gsize, grot Vector3XmlAttr, gscale *Vector3, m *Matrix4, done bool) bool {
	q := Vector3(gs.Position)
	return gs.Rotation == grot && (!done && q == gpos && gs.Size == gsize || done && vIsImage(m, gpos, &q) && vScaled(gs.Size, gsize, gscale))
}
func Inv_Lemma_PhysicsShapes__outer(gs *PhysicsShape, gpos Vector3, gsize, grot Vector3XmlAttr, gscale *Vector3, m *Matrix4, k, gbi int) bool {
	return vShapeState(gs, gpos, gsize, grot, gscale, m, k > gbi)
}
func Inv_Lemma_PhysicsShapes__inner(gs *PhysicsShape, gpos Vector3, gsize, grot Vector3XmlAttr, gscale *Vector3, m *Matrix4, k, k1, gbi, gsi int) bool {
	return vShapeState(gs, gpos, gsize, grot, gscale, m, k1 > gbi || k1 == gbi && k > gsi)
}
