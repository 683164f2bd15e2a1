//go:build go1.21

package converter

import (
	"fmt"
	"math"
	"math/rand"

	"github.com/binzume/modelconv/mqo"
)

func vRandV(r *rand.Rand) *mqo.Vector3 {
	return &mqo.Vector3{X: float32(r.Intn(200)-100) / 4, Y: float32(r.Intn(200)-100) / 4, Z: float32(r.Intn(200)-100) / 4}
}

// a small random document; the X coordinate of a vertex names its object and index (see vWho)
func vRandMQO(r *rand.Rand) *mqo.Document {
	doc := mqo.NewDocument()
	nm := 1 + r.Intn(3)
	for i := 0; i < nm; i++ {
		m := &mqo.Material{Name: fmt.Sprint("m", i), Color: mqo.Vector4{X: r.Float32(), Y: r.Float32(), Z: r.Float32(), W: r.Float32()}, Power: float32(r.Intn(9))}
		if r.Intn(2) == 0 {
			m.Texture = fmt.Sprint("tex", i)
		}
		doc.Materials = append(doc.Materials, m)
	}
	no := 1 + r.Intn(3)
	for i := 0; i < no; i++ {
		o := mqo.NewObject(fmt.Sprint("o", i))
		o.Visible = r.Intn(4) != 0
		nv := 1 + r.Intn(7)
		for j := 0; j < nv; j++ {
			v := vRandV(r)
			v.X = float32(i*100+j) / 4
			o.Vertexes = append(o.Vertexes, v)
		}
		uvs := r.Intn(5) > 0
		if r.Intn(3) == 0 {
			for j := 0; j < nv; j++ {
				o.VertexByUID[100+j] = (j + 1) % nv
			}
		}
		for j := r.Intn(5); j > 0; j-- {
			f := &mqo.Face{Material: r.Intn(nm)}
			for k := r.Intn(6); k > 0; k-- {
				v := r.Intn(nv)
				f.Verts = append(f.Verts, v)
				if uvs {
					f.UVs = append(f.UVs, mqo.Vector2{X: float32(r.Intn(2)), Y: float32(r.Intn(3))})
				}
				n := vRandV(r)
				if n.Len() > 1 {
					n = n.Scale(1 / n.Len())
				} else {
					n = &mqo.Vector3{Z: 1}
				}
				f.Normals = append(f.Normals, n)
			}
			o.Faces = append(o.Faces, f)
		}
		doc.Objects = append(doc.Objects, o)
	}
	mp := mqo.GetMorphPlugin(doc)
	for i := 0; i < no; i++ {
		if r.Intn(2) == 0 {
			continue
		}
		l := &mqo.MorphTargetList{Base: doc.Objects[i].Name}
		for j := 0; j < 1+r.Intn(2); j++ {
			t := doc.Objects[i].Clone()
			t.Name = fmt.Sprint("target", i, "_", j)
			for _, v := range t.Vertexes {
				if r.Intn(2) == 0 {
					*v = *vRandV(r)
				}
			}
			if r.Intn(6) == 0 { // does not fit its base
				t.Vertexes = t.Vertexes[:r.Intn(len(t.Vertexes))]
				t.Faces = nil
			}
			l.Target = append(l.Target, &mqo.MorphTarget{Name: t.Name})
			doc.Objects = append(doc.Objects, t)
		}
		mp.MorphSet.Targets = append(mp.MorphSet.Targets, l)
	}
	for i, o := range doc.Objects {
		o.UID = 0
		if r.Intn(3) == 0 {
			o.UID = 50 + i
		}
	}
	var bones []*mqo.Bone
	nb := r.Intn(7)
	sparse := 2 // one of two bones, one of two vertices
	if r.Intn(3) == 0 {
		sparse = 9
	}
	perm := r.Perm(nb)
	for i := 0; i < nb; i++ {
		b := &mqo.Bone{ID: perm[i] + 1, Name: fmt.Sprint("b", i), Pos: mqo.Vector3Attr{Vector3: *vRandV(r)}}
		if i > 0 && r.Intn(4) > 0 {
			b.Parent = bones[r.Intn(i)].ID
		}
		for j, o := range doc.Objects[:no] {
			uid := o.UID
			if uid == 0 {
				uid = j + 1
			}
			if r.Intn(sparse) == 0 {
				continue
			}
			for v := range o.Vertexes {
				if r.Intn(sparse) > 0 {
					id := v + 1
					if len(o.VertexByUID) > 0 {
						id = 100 + (v+len(o.Vertexes)-1)%len(o.Vertexes)
					}
					b.SetVertexWeight(uid, id, float32(r.Intn(100)))
				}
			}
		}
		bones = append(bones, b)
	}
	mqo.GetBonePlugin(doc).SetBones(bones)
	ph := mqo.GetPhysicsPlugin(doc)
	for i := 0; i < r.Intn(3); i++ {
		b := &mqo.PhysicsBody{Name: fmt.Sprint("p", i), TargetBoneID: r.Intn(nb + 1), Kinematic: r.Intn(2) == 0, Mass: r.Float32(), CollisionGroup: r.Intn(16), CollisionMask: r.Intn(65536)}
		for j := 0; j < 1+r.Intn(2); j++ {
			b.Shapes = append(b.Shapes, &mqo.PhysicsShape{Type: []string{"SPHERE", "BOX", "CAPSULE"}[r.Intn(3)], Size: mqo.Vector3XmlAttr(*vRandV(r)), Position: mqo.Vector3XmlAttr(*vRandV(r)), Rotation: mqo.Vector3XmlAttr(*vRandV(r))})
		}
		ph.Bodies = append(ph.Bodies, b)
	}
	return doc
}


// object and vertex that a converted position comes from
func vWho(x, scale float32) (int, int) {
	n := int(math.Round(float64(x/scale) * 4))
	return n / 100, n % 100
}

func vUV(f *mqo.Face, k int) mqo.Vector2 {
	if k < len(f.UVs) {
		return f.UVs[k]
	}
	return mqo.Vector2{}
}
