//go:build go1.21

package converter

import (
	"io"
	"log"
	"math/rand"
	"sort"
	"strings"

	"github.com/binzume/modelconv/mqo"
	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/modeler"
)

// bounded stand-in: the whole conversion on small generated documents, read back with the glTF library
func Bounded_MQOToGLTF(seed uint32) {
	log.SetOutput(io.Discard)
	r := rand.New(rand.NewSource(int64(seed)))
	doc := vRandMQO(r)
	if r.Intn(3) == 0 {
		doc.Materials[r.Intn(len(doc.Materials))].Name += "$IGNORE"
	}
	for _, m := range doc.Materials {
		m.Texture = ""
	}
	target := map[string]bool{}
	for _, l := range mqo.GetMorphPlugin(doc).Morphs() {
		for _, t := range l.Target {
			target[t.Name] = true
		}
	}
	depth := 0
	for _, o := range doc.Objects {
		if r.Intn(4) == 0 {
			o.Shading = 0
		}
		if !target[o.Name] {
			o.Depth = r.Intn(depth + 1)
			depth = o.Depth + 1
		}
	}
	var scale float32 = 0.5
	opt := &MQOToGLTFOption{Scale: scale, IgnoreObjectHierarchy: r.Intn(2) == 0, ForceUnlit: r.Intn(4) == 0, ConvertPhysics: r.Intn(2) == 0}
	verts := VOld(doc.Objects)
	c := NewMQOToGLTFConverter(opt)
	g, err := c.Convert(doc, "")
	VAssert("converted", err == nil && g != nil && len(g.Scenes) > 0)

	// objects that get a node, in order
	var objs []*mqo.Object
	for i, o := range doc.Objects {
		if !target[o.Name] && (!opt.IgnoreObjectHierarchy || o.Visible && len(verts[i].Faces) > 0) {
			objs = append(objs, o)
		}
	}
	bones := mqo.GetBonePlugin(doc).Bones()
	VAssert("nodes", len(g.Nodes) == len(objs)+len(bones))
	parent := make([]int, len(g.Nodes))
	for i := range parent {
		parent[i] = -2
	}
	for _, n := range g.Scenes[0].Nodes {
		VAssert("root_once", parent[n] == -2)
		parent[n] = -1
	}
	for i, n := range g.Nodes {
		for _, ch := range n.Children {
			VAssert("child_once", parent[ch] == -2)
			parent[ch] = i
		}
	}
	for i, o := range objs {
		want := -1
		if !opt.IgnoreObjectHierarchy {
			for j := 0; j < i; j++ {
				if objs[j].Depth < o.Depth {
					want = j
				}
			}
		}
		VAssert("object_node", g.Nodes[i].Name == o.Name && parent[i] == want)
		VAssert("object_untransformed", g.Nodes[i].Translation == [3]float32{} && g.Nodes[i].MatrixOrDefault() == gltf.DefaultMatrix)
	}
	boneNode := map[int]int{}
	for i, b := range bones {
		boneNode[b.ID] = len(objs) + i
	}
	for i, b := range bones {
		n := g.Nodes[len(objs)+i]
		want := -1
		if b.Parent > 0 {
			want = boneNode[b.Parent]
		}
		VAssert("bone_node", n.Name == b.Name && parent[len(objs)+i] == want && n.RotationOrDefault() == gltf.DefaultRotation && n.ScaleOrDefault() == gltf.DefaultScale && n.MatrixOrDefault() == gltf.DefaultMatrix)
		ns, mass, static := 0, float32(0), false
		ext, _ := n.Extensions[BlenderPhysicsName].(*BlenderPhysicsBody)
		for _, pb := range mqo.GetPhysicsPlugin(doc).Bodies {
			if !opt.ConvertPhysics || pb.TargetBoneID != b.ID {
				continue
			}
			mass, static = mass+pb.Mass, static || pb.Kinematic
			for _, s := range pb.Shapes {
				VAssert("physics", ext != nil && ns < len(ext.Shapes))
				q := ext.Shapes[ns]
				ns++
				t, sz := q["offsetTranslation"].([3]float32), q["boundingBox"].([3]float32)
				VAssert("physics_shape", q["shapeType"] == s.Type && sz == [3]float32{s.Size.X * scale, s.Size.Y * scale, s.Size.Z * scale} &&
					VEq(t[0], (s.Position.X-b.Pos.X)*scale) && VEq(t[1], (s.Position.Y-b.Pos.Y)*scale) && VEq(t[2], (s.Position.Z-b.Pos.Z)*scale))
			}
		}
		VAssert("physics_body", ns == 0 && ext == nil || ext != nil && ns == len(ext.Shapes) && VEq(ext.Mass, mass) && ext.Static == static)
		var w [3]float32
		for j := len(objs) + i; j >= 0; j = parent[j] {
			for k := range w {
				w[k] += g.Nodes[j].Translation[k]
			}
		}
		VAssert("bone_world", VEq(w[0], b.Pos.X*scale) && VEq(w[1], b.Pos.Y*scale) && VEq(w[2], b.Pos.Z*scale))
	}
	// materials
	used := map[int]bool{}
	for _, o := range objs {
		if o.Visible {
			for _, f := range verts[vIndexOf(doc.Objects, o)].Faces {
				used[f.Material] = true
			}
		}
	}
	matIndex := map[int]int{}
	for i, m := range doc.Materials {
		if used[i] && !strings.HasSuffix(m.Name, "$IGNORE") {
			matIndex[i] = len(matIndex)
			q := g.Materials[matIndex[i]]
			VAssert("material", q.Name == m.Name && q.PBRMetallicRoughness.BaseColorFactor[0] == m.Color.X && q.PBRMetallicRoughness.BaseColorFactor[3] == m.Color.W)
		}
	}
	VAssert("material_count", len(g.Materials) == len(matIndex))
	// meshes
	for i, o := range objs {
		n := g.Nodes[i]
		type tri struct{ m, a, b, c int }
		key := func(f *mqo.Face, k int) int { return f.Verts[k]*100 + int(vUV(f, k).X*10+vUV(f, k).Y) }
		want := map[tri]int{}
		total, uvs := 0, false
		if o.Visible {
			for _, f := range o.Faces {
				if mi, ok := matIndex[f.Material]; ok {
					VAssert("triangulated", len(f.Verts) == 3)
					want[tri{mi, key(f, 2), key(f, 1), key(f, 0)}]++
					total++
					uvs = uvs || len(f.UVs) > 0
				}
			}
		}
		VAssert("mesh_iff_faces", (n.Mesh != nil) == (total > 0))
		if n.Mesh == nil {
			continue
		}
		mesh := g.Meshes[*n.Mesh]
		VAssert("mesh_name", mesh.Name == o.Name)
		var origin map[int]int
		share := map[int]uint32{}
		for _, p := range mesh.Primitives {
			pos, err := modeler.ReadPosition(g, g.Accessors[p.Attributes["POSITION"]], nil)
			VAssert("positions", err == nil)
			uv := make([][2]float32, len(pos))
			tid, hasUV := p.Attributes["TEXCOORD_0"]
			VAssert("uvs_iff_any", hasUV == uvs)
			if hasUV {
				uv, err = modeler.ReadTextureCoord(g, g.Accessors[tid], nil)
				VAssert("uvs", err == nil && len(uv) == len(pos))
			}
			nid, hasNormal := p.Attributes["NORMAL"]
			VAssert("normals_iff_shaded", hasNormal == (o.Shading > 0 && !opt.ForceUnlit))
			var nor [][3]float32
			if hasNormal {
				nor, err = modeler.ReadNormal(g, g.Accessors[nid], nil)
				VAssert("normals", err == nil && len(nor) == len(pos))
			}
			for name, a := range p.Attributes {
				VAssert("attribute_count_"+name, int(g.Accessors[a].Count) == len(pos))
			}
			ind, err := modeler.ReadIndices(g, g.Accessors[*p.Indices], nil)
			VAssert("indices", err == nil && len(ind)%3 == 0)
			origin = map[int]int{}
			var id [3]int
			for k, v := range ind {
				VAssert("index_valid", int(v) < len(pos))
				oi, ov := vWho(pos[v][0], scale)
				VAssert("own_vertex", doc.Objects[oi] == o)
				origin[int(v)] = ov
				q := o.Vertexes[ov]
				VAssert("position", VEq(pos[v][0], q.X*scale) && VEq(pos[v][1], q.Y*scale) && VEq(pos[v][2], q.Z*scale))
				if hasNormal {
					ok := false
					for _, f := range o.Faces {
						for k := range f.Verts {
							if f.Verts[k] == ov && vUV(f, k).X == uv[v][0] && vUV(f, k).Y == uv[v][1] {
								nn := f.Normals[k]
								ok = ok || VEq(nor[v][0], nn.X) && VEq(nor[v][1], nn.Y) && VEq(nor[v][2], nn.Z)
							}
						}
					}
					VAssert("normal", ok)
				}
				id[k%3] = ov*100 + int(uv[v][0]*10+uv[v][1])
				if w, ok := share[id[k%3]]; ok {
					VAssert("shared", w == v)
				}
				share[id[k%3]] = v
				if k%3 == 2 {
					want[tri{int(*p.Material), id[0], id[1], id[2]}]--
				}
			}
			// skin
			var infl = map[[2]int]float32{} // vertex, bone
			cnt := map[int]int{}
			for bi, b := range bones {
				for _, w := range b.Weights {
					if w.ObjectID == o.UID {
						for _, vw := range w.Vertexes {
							infl[[2]int{o.GetVertexIndexByID(vw.VertexID), bi}] = vw.Weight / 100
							cnt[o.GetVertexIndexByID(vw.VertexID)]++
						}
					}
				}
			}
			jid, hasJoints := p.Attributes["JOINTS_0"]
			wid, hasWeights := p.Attributes["WEIGHTS_0"]
			VAssert("joints_and_weights", hasJoints == hasWeights && hasJoints == (n.Skin != nil))
			VAssert("skinned", hasJoints || len(infl) == 0)
			if hasJoints {
				skin := g.Skins[*n.Skin]
				js, err := modeler.ReadJoints(g, g.Accessors[jid], nil)
				VAssert("joints", err == nil)
				ws, err := modeler.ReadWeights(g, g.Accessors[wid], nil)
				VAssert("weights", err == nil)
				ibm, err := modeler.ReadAccessor(g, g.Accessors[*skin.InverseBindMatrices], nil)
				VAssert("bind_matrices", err == nil)
				mats := ibm.([][4][4]float32)
				VAssert("bind_count", len(mats) == len(skin.Joints))
				bone := make([]int, len(skin.Joints))
				for k, j := range skin.Joints {
					VAssert("joint_is_bone", int(j) >= len(objs) && int(j) < len(g.Nodes))
					bone[k] = int(j) - len(objs)
					b := bones[bone[k]]
					t := [3]float32{-b.Pos.X * scale, -b.Pos.Y * scale, -b.Pos.Z * scale} // the library reads rows
					VAssert("bind_matrix", mats[k] == [4][4]float32{{1, 0, 0, t[0]}, {0, 1, 0, t[1]}, {0, 0, 1, t[2]}, {0, 0, 0, 1}})
				}
				for v, ov := range origin {
					var sum float32
					got := map[int]float32{}
					for k := 0; k < 4; k++ {
						VAssert("joint_valid", int(js[v][k]) < len(bone))
						if ws[v][k] != 0 {
							got[bone[js[v][k]]] += ws[v][k]
							sum += ws[v][k]
						}
					}
					for b, w := range got {
						x, ok := infl[[2]int{ov, b}]
						VAssert("influence", ok && (cnt[ov] > 4 || VEq(w, x)))
					}
					if cnt[ov] > 4 {
						var all []float64
						var top float32
						for bi := range bones {
							all = append(all, float64(infl[[2]int{ov, bi}]))
						}
						sort.Float64s(all)
						for _, x := range all[len(all)-4:] {
							top += float32(x)
						}
						VAssert("renormalised", VEq(sum, 1) || top == 0)
						for b, w := range got {
							VAssert("proportional", VEq(w*top, infl[[2]int{ov, b}]))
						}
						continue
					}
					for bi := range bones {
						VAssert("influence_kept", VEq(got[bi], infl[[2]int{ov, bi}]))
					}
				}
			}
			// morph targets
			var morphs []*mqo.Object
			for _, l := range mqo.GetMorphPlugin(doc).Morphs() {
				if l.Base == o.Name {
					for _, t := range l.Target {
						for _, x := range doc.Objects {
							if x.Name == t.Name && len(x.Vertexes) == len(o.Vertexes) {
								morphs = append(morphs, x)
							}
						}
					}
				}
			}
			VAssert("targets", len(p.Targets) == len(morphs))
			names := mesh.Extras.(map[string]interface{})["targetNames"].([]string)
			for k, x := range morphs {
				VAssert("target_name", names[k] == x.Name)
				for name, a := range p.Targets[k] {
					VAssert("target_count_"+name, int(g.Accessors[a].Count) == len(pos))
				}
				d, err := modeler.ReadPosition(g, g.Accessors[p.Targets[k]["POSITION"]], nil)
				VAssert("target_positions", err == nil)
				for v, ov := range origin {
					a, b := x.Vertexes[ov], o.Vertexes[ov]
					VAssert("target_offset", VEq(d[v][0], (a.X-b.X)*scale) && VEq(d[v][1], (a.Y-b.Y)*scale) && VEq(d[v][2], (a.Z-b.Z)*scale))
				}
			}
		}
		for _, n := range want {
			VAssert("surface", n == 0)
		}
	}
}

func vIndexOf(list []*mqo.Object, o *mqo.Object) int {
	for i, x := range list {
		if x == o {
			return i
		}
	}
	return -1
}
