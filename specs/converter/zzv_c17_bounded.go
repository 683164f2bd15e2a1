//go:build go1.21

package converter

import (
	"math/rand"

	"github.com/binzume/modelconv/mmd"
	"github.com/binzume/modelconv/mqo"
)

// bounded stand-in: the whole conversion on small generated documents
func Bounded_MQOToMMD(seed uint32) {
	r := rand.New(rand.NewSource(int64(seed)))
	doc := vRandMQO(r)
	var scale float32 = 1.0 / 80
	c := NewMQOToMMDConverter(nil)
	for _, o := range doc.Objects {
		for _, f := range o.Faces {
			if r.Intn(9) == 0 {
				f.UVs = nil
			}
		}
	}
	src := VOld(doc.Objects)
	dst, err := c.Convert(doc)
	VAssert("converted", err == nil && dst != nil)
	for i, o := range doc.Objects {
		VAssert("source_kept", len(o.Vertexes) == len(src[i].Vertexes) && len(o.Faces) == len(src[i].Faces))
		for j, v := range o.Vertexes {
			VAssert("source_kept", *v == *src[i].Vertexes[j])
		}
	}
	target := map[string]bool{}
	for _, l := range mqo.GetMorphPlugin(doc).Morphs() {
		for _, t := range l.Target {
			target[t.Name] = true
		}
	}
	// vertices
	where := make([][2]int, len(dst.Vertexes))
	for i, v := range dst.Vertexes {
		oi, vi := vWho(v.Pos.X, scale)
		where[i] = [2]int{oi, vi}
		o := doc.Objects[oi]
		VAssert("position", vScaledMir(scale, *o.Vertexes[vi], v.Pos))
		n := o.GetSmoothNormals()[vi]
		VAssert("normal", VEq(n.X, v.Normal.X) && VEq(n.Y, v.Normal.Y) && VEq(-n.Z, v.Normal.Z))
	}
	// surface: per material, the faces are the fans of the faces with that material
	VAssert("materials", len(dst.Materials) == len(doc.Materials))
	type corner struct {
		o, i int
		uv   mqo.Vector2
	}
	type tri [3]corner
	fi := 0
	for mi, m := range dst.Materials {
		q := doc.Materials[mi]
		VAssert("material", m.Name == q.Name && m.Color.X == q.Color.X && m.Color.W == q.Color.W && m.Specularity == q.Power)
		VAssert("texture", q.Texture == "" && m.TextureID == -1 || q.Texture != "" && m.TextureID >= 0 && m.TextureID < len(dst.Textures) && dst.Textures[m.TextureID] == q.Texture)
		want := map[tri]int{}
		for oi, o := range doc.Objects {
			if !o.Visible || target[o.Name] {
				continue
			}
			for _, f := range o.Faces {
				if f.Material == mi {
					for n := 0; n+2 < len(f.Verts); n++ {
						want[tri{corner{oi, f.Verts[0], vUV(f, 0)}, corner{oi, f.Verts[n+1], vUV(f, n+1)}, corner{oi, f.Verts[n+2], vUV(f, n+2)}}]++
					}
				}
			}
		}
		share := map[corner]int{}
		VAssert("count", m.Count%3 == 0 && fi+m.Count/3 <= len(dst.Faces))
		for n := 0; n < m.Count/3; n++ {
			f := dst.Faces[fi]
			fi++
			var t tri
			for k, v := range f.Verts {
				VAssert("valid", 0 <= v && v < len(dst.Vertexes))
				t[k] = corner{where[v][0], where[v][1], mqo.Vector2{X: dst.Vertexes[v].UV.X, Y: dst.Vertexes[v].UV.Y}}
				if w, ok := share[t[k]]; ok {
					VAssert("shared", w == v)
				}
				share[t[k]] = v
			}
			want[t]--
		}
		for _, n := range want {
			VAssert("surface", n == 0)
		}
	}
	VAssert("all_faces", fi == len(dst.Faces))
	// bones
	bones := mqo.GetBonePlugin(doc).Bones()
	VAssert("bones", len(dst.Bones) == len(bones))
	index := map[int]int{}
	for i, b := range bones {
		index[b.ID] = i
	}
	for i, b := range bones {
		p := dst.Bones[i]
		VAssert("bone", p.Name == b.Name && vScaledMir(scale, b.Pos.Vector3, p.Pos))
		if b.Parent > 0 {
			VAssert("parent", p.ParentID == index[b.Parent])
		} else {
			VAssert("root", p.ParentID == -1)
		}
		if p.Flags&mmd.BoneFlagTailIndex != 0 {
			VAssert("tail", p.TailID >= 0 && p.TailID < len(bones) && bones[p.TailID].Parent == b.ID)
		} else {
			VAssert("no_tail", p.TailID == -1)
			for _, b2 := range bones {
				VAssert("leaf", b2.Parent != b.ID)
			}
		}
	}
	// weights: at most four per vertex, the first four in bone order
	for i, v := range dst.Vertexes {
		o := doc.Objects[where[i][0]]
		var wb []int
		var ww []float32
		for bi, b := range bones {
			for _, w := range b.Weights {
				if w.ObjectID == o.UID {
					for _, vw := range w.Vertexes {
						if o.GetVertexIndexByID(vw.VertexID) == where[i][1] && len(wb) < 4 {
							wb = append(wb, bi)
							ww = append(ww, vw.Weight/100)
						}
					}
				}
			}
		}
		VAssert("weights", len(v.Bones) == len(wb) && len(v.BoneWeights) == len(wb))
		for k := range wb {
			VAssert("weight", v.Bones[k] == wb[k] && VEq(v.BoneWeights[k], ww[k]))
		}
	}
	// morphs
	byName := map[string]*mmd.Morph{}
	for _, m := range dst.Morphs {
		byName[m.Name] = m
	}
	VAssert("morphs", len(byName) == len(target) && len(dst.Morphs) == len(target))
	for _, l := range mqo.GetMorphPlugin(doc).Morphs() {
		for _, t := range l.Target {
			m := byName[t.Name]
			VAssert("morph", m != nil && m.MorphType == 1)
			off := map[int]mmd.Vector3{}
			for _, mv := range m.Vertex {
				_, dup := off[mv.Target]
				VAssert("offset_once", !dup && mv.Target >= 0 && mv.Target < len(dst.Vertexes))
				off[mv.Target] = mv.Offset
			}
			var to *mqo.Object
			for _, o := range doc.Objects {
				if o.Name == t.Name {
					to = o
				}
			}
			for i := range dst.Vertexes {
				o := doc.Objects[where[i][0]]
				d := &mqo.Vector3{}
				if o.Name == l.Base && where[i][1] < len(to.Vertexes) {
					d = to.Vertexes[where[i][1]].Sub(o.Vertexes[where[i][1]])
				}
				VAssert("offset", vScaledMir(scale, *d, off[i]))
			}
		}
	}
	// physics
	n := 0
	for _, b := range mqo.GetPhysicsPlugin(doc).Bodies {
		for _, s := range b.Shapes {
			VAssert("bodies", n < len(dst.Bodies))
			bi, ok := index[b.TargetBoneID]
			VAssert("body", vBodyOK(c, b, *s, dst.Bodies[n], bi, ok) && vBodyAttrs(b, dst.Bodies[n], bi, ok))
			n++
		}
	}
	VAssert("body_count", n == len(dst.Bodies))
}
