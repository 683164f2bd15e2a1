//go:build go1.21

package converter

import (
	"fmt"
	"math/rand"

	"github.com/binzume/modelconv/mmd"
	"github.com/binzume/modelconv/mqo"
)

func vRandVec(r *rand.Rand) mmd.Vector3 {
	return mmd.Vector3{X: float32(r.Intn(200)-100) / 8, Y: float32(r.Intn(200)-100) / 8, Z: float32(r.Intn(200)-100) / 8}
}

// a small random PMX model: every vertex carries its own index in UV.X; some vertices have no face
func vRandPMX(r *rand.Rand) *mmd.Document {
	d := mmd.NewDocument()
	nb := 1 + r.Intn(5)
	for i := 0; i < nb; i++ {
		b := &mmd.Bone{Name: fmt.Sprint("b", i), Pos: vRandVec(r), ParentID: r.Intn(i+1) - 1, Layer: r.Intn(3), TailID: r.Intn(nb+1) - 1}
		b.Flags = uint16(r.Intn(1<<14)) &^ 256
		if r.Intn(3) == 0 {
			b.Flags |= 256
			b.InheritParentID = r.Intn(nb)
			b.InheritParentInfluence = float32(r.Intn(3)) / 2
		}
		if r.Intn(4) == 0 {
			b.IK.TargetID = r.Intn(nb)
			for j := 0; j <= r.Intn(3); j++ {
				b.IK.Links = append(b.IK.Links, &mmd.Link{TargetID: r.Intn(nb)})
			}
		}
		d.Bones = append(d.Bones, b)
	}
	nv := 3 + r.Intn(10)
	for i := 0; i < nv; i++ {
		v := &mmd.Vertex{Pos: vRandVec(r), Normal: vRandVec(r), UV: mmd.Vector2{X: float32(i), Y: float32(r.Intn(9))}}
		for j := 0; j < r.Intn(5); j++ {
			v.Bones = append(v.Bones, r.Intn(nb))
			v.BoneWeights = append(v.BoneWeights, float32(r.Intn(5))/4)
		}
		d.Vertexes = append(d.Vertexes, v)
	}
	for i := 0; i < 1+r.Intn(4); i++ {
		n := r.Intn(5)
		d.Textures = append(d.Textures, fmt.Sprint("t", i))
		m := &mmd.Material{Name: fmt.Sprint("m", i), Count: n * 3, TextureID: r.Intn(len(d.Textures)+1) - 1, Flags: byte(r.Intn(256)), Specularity: float32(r.Intn(10)),
			Color: mmd.Vector4{X: r.Float32(), Y: r.Float32(), Z: r.Float32(), W: r.Float32()}}
		d.Materials = append(d.Materials, m)
		// a material uses vertices of a window, so that there are several connected groups
		lo := r.Intn(nv)
		w := 1 + r.Intn(nv-lo)
		for ; n > 0; n-- {
			d.Faces = append(d.Faces, &mmd.Face{Verts: [3]int{lo + r.Intn(w), lo + r.Intn(w), lo + r.Intn(w)}})
		}
	}
	for i := 0; i < r.Intn(4); i++ {
		m := &mmd.Morph{Name: fmt.Sprint("morph", i)}
		switch r.Intn(3) {
		case 0:
			for j := 0; j < 1+r.Intn(4); j++ {
				m.UV = append(m.UV, &mmd.MorphUV{Target: r.Intn(nv), Value: mmd.Vector4{X: float32(r.Intn(8)) / 4, Y: float32(r.Intn(8)) / 4}})
			}
			m.MorphType = 3
		case 1:
			m.MorphType = 8
			m.Material = append(m.Material, &mmd.MorphMaterial{Target: r.Intn(len(d.Materials)+1) - 1, Flags: byte(r.Intn(2)),
				Diffuse: mmd.Vector4{X: r.Float32(), Y: r.Float32(), Z: r.Float32(), W: r.Float32()}})
		default:
			m.MorphType = 1
			for j := 0; j < 1+r.Intn(4); j++ {
				m.Vertex = append(m.Vertex, &mmd.MorphVertex{Target: r.Intn(nv), Offset: vRandVec(r)})
			}
		}
		d.Morphs = append(d.Morphs, m)
	}
	nbd := r.Intn(4)
	for i := 0; i < nbd; i++ {
		d.Bodies = append(d.Bodies, &mmd.RigidBody{Name: fmt.Sprint("r", i), Bone: r.Intn(nb), Shape: uint8(r.Intn(3)), Group: r.Intn(16), GroupTarget: r.Intn(65536),
			Size: vRandVec(r), Position: vRandVec(r), Rotation: vRandVec(r), Mass: r.Float32(), Mode: uint8(r.Intn(3)), LinearDamping: r.Float32(), AngularDamping: r.Float32(), Restitution: r.Float32(), Friction: r.Float32()})
		d.Joints = append(d.Joints, &mmd.Joint{Name: fmt.Sprint("j", i), Body1: r.Intn(nbd), Body2: r.Intn(nbd), Position: vRandVec(r), Rotation: vRandVec(r), LinerSpring: vRandVec(r), AngulerSpring: vRandVec(r)})
	}
	return d
}

func vQ(a, b float32) bool { return VEq(a, b) }

// bounded stand-in: the whole conversion on small generated models
func Bounded_MMDConvert(seed uint32) {
	r := rand.New(rand.NewSource(int64(seed)))
	pmx := vRandPMX(r)
	c := NewMMDToMQOConverter(&MMDToMQOOption{KnownBoneNames: []string{"b0", "b2"}, InheritParentThreshold: 0.6})
	src := VOld(pmx)
	mq := c.Convert(pmx)
	VAssert("source_kept", fmt.Sprintf("%+v", src.Vertexes[0]) == fmt.Sprintf("%+v", pmx.Vertexes[0]) && len(pmx.Faces) == len(src.Faces))

	// bones
	bones := mqo.GetBonePlugin(mq).Bones()
	VAssert("bones", len(bones) == len(pmx.Bones))
	for i, p := range pmx.Bones {
		VAssert("bone", vMMDBone(c, p, bones[i], i))
		par := p.ParentID + 1
		if p.Flags&256 != 0 && p.InheritParentInfluence > 0.6 {
			if n := pmx.Bones[p.InheritParentID].Name; n == "b0" || n == "b2" {
				par = p.InheritParentID + 1
			}
		}
		VAssert("parent", bones[i].Parent == par)
	}
	ik := make([]*mqo.BoneIK, len(bones))
	for _, p := range pmx.Bones {
		if len(p.IK.Links) > 0 {
			tip := ""
			if p.TailID > 0 && p.TailID < len(pmx.Bones) {
				tip = pmx.Bones[p.TailID].Name
			}
			ik[p.IK.TargetID] = &mqo.BoneIK{ChainCount: len(p.IK.Links) + 1, Name: p.Name, TipName: tip}
		}
	}
	for i, b := range bones {
		VAssert("ik", (ik[i] == nil) == (b.IK == nil) && (b.IK == nil || b.IK.ChainCount == ik[i].ChainCount && b.IK.Name == ik[i].Name && b.IK.TipName == ik[i].TipName))
	}
	// materials
	VAssert("materials", len(mq.Materials) >= len(pmx.Materials))
	for i, m := range pmx.Materials {
		q := mq.Materials[i]
		VAssert("material", q.Name == m.Name && q.Color.X == m.Color.X && q.Color.W == m.Color.W && q.Power == m.Specularity && q.DoubleSided == (m.Flags&1 == 1))
		tex := ""
		if m.TextureID >= 0 {
			tex = pmx.Textures[m.TextureID]
		}
		VAssert("texture", q.Texture == tex)
	}
	// object table
	byName := map[string]int{}
	target := map[string]string{}
	for i, o := range mq.Objects {
		VAssert("uid", o.UID == i+1)
		byName[o.Name] = i
	}
	for _, tl := range mqo.GetMorphPlugin(mq).Morphs() {
		for _, t := range tl.Target {
			target[t.Name] = tl.Base
		}
	}
	// surface: the faces of the objects that are no morph targets are exactly the faces of the model
	type key struct{ m, a, b, c int }
	want := map[key]int{}
	fi := 0
	for mi, m := range pmx.Materials {
		for n := 0; n < m.Count/3; n++ {
			v := pmx.Faces[fi].Verts
			want[key{mi, v[0], v[1], v[2]}]++
			fi++
		}
	}
	origin := make([]map[int]int, len(mq.Objects)) // object vertex -> PMX vertex
	for oi, o := range mq.Objects {
		if target[o.Name] != "" {
			continue
		}
		origin[oi] = map[int]int{}
		for _, f := range o.Faces {
			VAssert("triangle", len(f.Verts) == 3 && len(f.UVs) == 3 && len(f.Normals) == 3)
			var id [3]int
			for k := 0; k < 3; k++ {
				id[k] = int(f.UVs[k].X)
				v := pmx.Vertexes[id[k]]
				VAssert("uv", f.UVs[k].Y == v.UV.Y)
				VAssert("position", vMir(&v.Pos, o.Vertexes[f.Verts[k]]))
				VAssert("normal", vMir(&v.Normal, f.Normals[k]))
				if p, ok := origin[oi][f.Verts[k]]; ok {
					VAssert("one_vertex_per_vertex", p == id[k])
				}
				origin[oi][f.Verts[k]] = id[k]
			}
			want[key{f.Material, id[0], id[1], id[2]}]--
		}
		VAssert("no_stray_vertices", len(origin[oi]) == len(o.Vertexes))
	}
	for _, n := range want {
		VAssert("surface", n == 0)
	}
	// weights
	for bi, b := range bones {
		got := map[[2]int]float32{}
		for _, w := range b.Weights {
			for _, vw := range w.Vertexes {
				k := [2]int{w.ObjectID, vw.VertexID}
				_, dup := got[k]
				VAssert("one_weight_per_vertex", !dup)
				got[k] = vw.Weight
			}
		}
		for oi := range mq.Objects {
			for v, p := range origin[oi] {
				var sum float32
				for j, pb := range pmx.Vertexes[p].Bones {
					if pb == bi {
						sum += 100 * pmx.Vertexes[p].BoneWeights[j]
					}
				}
				VAssert("weight", vQ(got[[2]int{oi + 1, v + 1}], sum))
				delete(got, [2]int{oi + 1, v + 1})
			}
		}
		VAssert("no_stray_weights", len(got) == 0)
	}
	// vertex and UV morphs
	used := map[int]bool{}
	for _, f := range pmx.Faces {
		for _, v := range f.Verts {
			used[v] = true
		}
	}
	for _, m := range pmx.Morphs {
		off := map[int]mqo.Vector3{}
		uv := map[int]mqo.Vector2{}
		for _, t := range m.Vertex {
			if used[t.Target] {
				o := off[t.Target]
				off[t.Target] = mqo.Vector3{X: o.X + t.Offset.X, Y: o.Y + t.Offset.Y, Z: o.Z - t.Offset.Z}
			}
		}
		for _, t := range m.UV {
			if used[t.Target] {
				o := uv[t.Target]
				uv[t.Target] = mqo.Vector2{X: o.X + t.Value.X, Y: o.Y + t.Value.Y}
			}
		}
		if len(off) == 0 && len(uv) == 0 {
			continue
		}
		base, ok := target[m.Name]
		VAssert("morph_listed", ok)
		bi, ok1 := byName[base]
		ti, ok2 := byName[m.Name]
		VAssert("morph_objects", ok1 && ok2)
		b, t := mq.Objects[bi], mq.Objects[ti]
		VAssert("target_hidden", !t.Visible && b.Visible)
		VAssert("morph_sizes", len(b.Vertexes) == len(t.Vertexes) && len(b.Faces) == len(t.Faces))
		seen := 0
		for v, p := range origin[bi] {
			o, ok := off[p]
			if ok {
				seen++
			}
			VAssert("morph_offset", vQ(b.Vertexes[v].X+o.X, t.Vertexes[v].X) && vQ(b.Vertexes[v].Y+o.Y, t.Vertexes[v].Y) && vQ(b.Vertexes[v].Z+o.Z, t.Vertexes[v].Z))
		}
		VAssert("morph_complete", seen == len(off))
		for fi, f := range b.Faces {
			for k := range f.Verts {
				o := uv[int(f.UVs[k].X)]
				g := t.Faces[fi]
				VAssert("morph_uv", g.Verts[k] == f.Verts[k] && vQ(f.UVs[k].X+o.X, g.UVs[k].X) && vQ(f.UVs[k].Y+o.Y, g.UVs[k].Y))
			}
		}
	}
	// physics
	if len(pmx.Bodies) > 0 {
		ph := mqo.FindPhysicsPlugin(mq)
		VAssert("physics", ph != nil && len(ph.Bodies) == len(pmx.Bodies) && len(ph.Constraints) == len(pmx.Joints))
		for i, b := range pmx.Bodies {
			q := ph.Bodies[i]
			VAssert("body", q.Name == b.Name && len(q.Shapes) == 1 && q.Mass == b.Mass && q.TargetBoneID == b.Bone+1 && q.Kinematic == (b.Mode == 0) &&
				q.CollisionGroup == b.Group && q.CollisionMask == b.GroupTarget && q.Restitution == b.Restitution && q.Friction == b.Friction &&
				q.LinearDamping == b.LinearDamping && q.AngularDamping == b.AngularDamping)
			s := q.Shapes[0]
			VAssert("shape", s.Type == []string{"SPHERE", "BOX", "CAPSULE"}[b.Shape] && vMir(&b.Position, s.Position.Vec3()) &&
				s.Size.X == b.Size.X && s.Size.Y == b.Size.Y && s.Size.Z == b.Size.Z &&
				s.Rotation.X == b.Rotation.X && s.Rotation.Y == b.Rotation.Y && s.Rotation.Z == b.Rotation.Z)
		}
		for i, j := range pmx.Joints {
			q := ph.Constraints[i]
			VAssert("joint", q.Name == j.Name && q.Body1 == j.Body1+1 && q.Body2 == j.Body2+1 && vMir(&j.Position, q.Position.Vec3()) &&
				q.Rotation.X == j.Rotation.X && q.LinerSpring.Y == j.LinerSpring.Y && q.AngulerSpring.Z == j.AngulerSpring.Z)
		}
	}
	// material morphs
	n := len(pmx.Materials)
	for _, m := range pmx.Morphs {
		for _, mm := range m.Material {
			if mm.Target < 0 || mm.Target >= len(pmx.Materials) {
				continue
			}
			VAssert("material_morph", n < len(mq.Materials) && mq.Materials[n].Name == "$MORPH:"+m.Name+":"+pmx.Materials[mm.Target].Name)
			o, d, g := pmx.Materials[mm.Target].Color, mm.Diffuse, mq.Materials[n].Color
			if mm.Flags == 1 {
				VAssert("material_add", vQ(g.X, o.X+d.X) && vQ(g.Y, o.Y+d.Y) && vQ(g.Z, o.Z+d.Z) && vQ(g.W, o.W+d.W))
			} else {
				VAssert("material_mul", vQ(g.X, o.X*d.X) && vQ(g.Y, o.Y*d.Y) && vQ(g.Z, o.Z*d.Z) && vQ(g.W, o.W*d.W))
			}
			n++
		}
	}
	VAssert("material_count", n == len(mq.Materials))
}
