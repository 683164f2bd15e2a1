//go:build go1.21

package mqo

import "github.com/binzume/modelconv/geom"

func vAffineInv(m *Matrix4) bool {
	d := m.Det()
	return m[3] == 0 && m[7] == 0 && m[11] == 0 && m[15] == 1 && (d > 0.1 || d < -0.1)
}

// bounded stand-in: a document-wide transform reaches every vertex and normal of every object, every bone
// and every physics shape exactly once
func Bounded_DocumentTransform(nobj uint8, vs []Vector3, m *Matrix4, nb uint8, t *Vector3, q *geom.Quaternion, s float32) {
	VRequires(len(vs) > 2)
	l := q.Len()
	VRequires(l > 0.5 && l < 2 && s > 0.1)
	qq := q.Scale(1 / l)
	m = geom.NewTRSMatrix4(t, qq, geom.NewVector3(s, s, s))
	doc := NewDocument()
	for i := 0; i < int(nobj%4); i++ {
		o := NewObject("o")
		for j := range vs {
			v := vs[(i+j)%len(vs)]
			o.Vertexes = append(o.Vertexes, &v)
		}
		for j := 0; j+2 < len(vs); j++ {
			f := &Face{Verts: []int{j, j + 1, j + 2}}
			n := vs[j]
			f.Normals = append(f.Normals, &n, nil, nil)
			if nb&4 != 0 && j%2 == 1 {
				// a normal object shared between two faces
				f.Normals[0] = o.Faces[j-1].Normals[0]
			}
			o.Faces = append(o.Faces, f)
		}
		if nb&8 != 0 {
			// a vertex object that occurs twice
			o.Vertexes = append(o.Vertexes, o.Vertexes[0])
		}
		o.Translation = geom.NewVector3(float32(i), 2, 3)
		doc.Objects = append(doc.Objects, o)
	}
	bp := GetBonePlugin(doc)
	for i := 0; i < int(nb%4); i++ {
		b := &Bone{Name: "b", ID: i + 1}
		b.Pos = Vector3Attr{vs[i%len(vs)]}
		bp.AddBone(b)
	}
	locals := make([]*Matrix4, len(doc.Objects))
	for i, o := range doc.Objects {
		locals[i] = o.GetLocalTransform()
	}
	old := VOld(doc.Objects)
	oldb := VOld(bp.Bones())
	doc.ApplyTransform(m)
	VAssert("objects_kept", len(doc.Objects) == len(old))
	for i, o := range doc.Objects {
		VAssert("count", len(o.Vertexes) == len(old[i].Vertexes) && len(o.Faces) == len(old[i].Faces))
		for j, v := range o.Vertexes {
			VAssert("vertex_image", vIsImage(m, *old[i].Vertexes[j], v))
		}
		rot := geom.NewRotationMatrix4FromQuaternion(qq)
		for j, f := range o.Faces {
			n := rot.ApplyTo(old[i].Faces[j].Normals[0]).Scale(1 / s)
			VAssert("normal_image", f.Normals[1] == nil && vEq3(n, f.Normals[0]))
		}
		rm := m.Mul(locals[i])
		if r9 := rot[9]; r9 > -0.99 && r9 < 0.99 {
			got := o.GetLocalTransform()
			VAssert("local_transform", VForall(0, 16, func(k int) bool { return VEq(got[k], rm[k]) }))
		}
	}
	for i, b := range bp.Bones() {
		VAssert("bone_image", vIsImage(m, oldb[i].Pos.Vector3, &b.Pos.Vector3))
	}
}
