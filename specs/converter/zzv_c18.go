//go:build go1.21

package converter

import (
	"github.com/binzume/modelconv/geom"
	"github.com/binzume/modelconv/mqo"
	"github.com/qmuntal/gltf"
)

func vUniqueIDs(bones []*mqo.Bone, gi int) bool {
	return VForall(0, len(bones), func(i int) bool { return bones[i] != nil && (i == gi || bones[i].ID != bones[gi].ID) })
}

// the node of bone gi is named after it and stands at the bone's position relative to its parent bone
func Lemma_GLTFBoneNode(m *mqoToGltf, bones []*mqo.Bone, gi, gp int) {
	VPartial()
	VRequires(m.MQOToGLTFOption != nil && m.Document != nil && len(m.Scenes) > 0 && m.Scenes[0] != nil)
	VRequires(VForall(0, len(m.Nodes), func(i int) bool { return m.Nodes[i] != nil }))
	VRequires(0 <= gi && gi < len(bones) && 0 <= gp && gp < len(bones))
	VRequires(vUniqueIDs(bones, gi) && vUniqueIDs(bones, gp))
	VRequires(len(m.Nodes)+len(bones) < 4294967296)
	gb, gpb := bones[gi], bones[gp]
	gid, gpid := gb.ID, gpb.ID
	VRequires(gb.Parent <= 0 || gb.Parent == gpb.ID)
	gn := len(m.Nodes)
	gs := m.Scale
	gpos, gppos := gb.Pos.Vector3, gpb.Pos.Vector3
	ids, rev := m.addBoneNodes(bones)
	VAssert("one_node_per_bone", len(m.Nodes) == gn+len(bones))
	n, ok := ids[gid]
	VAssert("index", ok && int(n) == gn+gi)
	VAssert("reverse", rev[n] == gb)
	nd := m.Nodes[gn+gi]
	VAssert("name", nd != nil && nd.Name == gb.Name)
	VAssert("root", gb.Parent > 0 || VEq(nd.Translation[0], gpos.X*gs) && VEq(nd.Translation[1], gpos.Y*gs) && VEq(nd.Translation[2], gpos.Z*gs))
	VAssert("child", gb.Parent <= 0 || VEq(nd.Translation[0], (gpos.X-gppos.X)*gs) && VEq(nd.Translation[1], (gpos.Y-gppos.Y)*gs) && VEq(nd.Translation[2], (gpos.Z-gppos.Z)*gs))
	_ = gpid
}

func vNodeOf(m *mqoToGltf, gn, gi int) *gltf.Node { return m.Nodes[gn+gi] }

func Inv_Lemma_GLTFBoneNode__len(m *mqoToGltf, k, gn int) bool { return len(m.Nodes) == gn+k }
func Inv_Lemma_GLTFBoneNode__len2(m *mqoToGltf, bones []*mqo.Bone, gn int) bool {
	return len(m.Nodes) == gn+len(bones)
}
func Inv_Lemma_GLTFBoneNode__id(idmap map[int]uint32, k, gi, gn, gid int) bool {
	return k <= gi || vHasU(idmap, gid) && int(idmap[gid]) == gn+gi
}
func Inv_Lemma_GLTFBoneNode__idr(idmap map[int]uint32, k, gi, gn, gid int) bool {
	return k > gi || !vHasU(idmap, gid)
}
func Inv_Lemma_GLTFBoneNode__rev(idmapr map[uint32]*mqo.Bone, k, gi, gn int, gb *mqo.Bone) bool {
	return k <= gi || idmapr[uint32(gn+gi)] == gb
}
func Inv_Lemma_GLTFBoneNode__bm(bonemap map[int]*mqo.Bone, k, gp, gpid int, gpb *mqo.Bone) bool {
	return k <= gp || bonemap[gpid] == gpb
}
func Inv_Lemma_GLTFBoneNode__nm(m *mqoToGltf, k, gi, gn int, gb *mqo.Bone) bool {
	return k <= gi || m.Nodes[gn+gi] != nil && m.Nodes[gn+gi].Name == gb.Name
}
func Inv_Lemma_GLTFBoneNode__nm2(m *mqoToGltf, gi, gn int, gb *mqo.Bone) bool {
	return m.Nodes[gn+gi] != nil && m.Nodes[gn+gi].Name == gb.Name
}
// no other bone maps to the node of bone gi, and no other node is that node
func Inv_Lemma_GLTFBoneNode__oth(idmap map[int]uint32, bones []*mqo.Bone, k, gi, gn int) bool {
	return VForall(0, k, func(j int) bool {
		n := int(idmap[bones[j].ID])
		return j == gi || gn <= n && n < gn+k && n != gn+gi
	})
}
func Inv_Lemma_GLTFBoneNode__oth2(idmap map[int]uint32, bones []*mqo.Bone, gi, gn int) bool {
	return VForall(0, len(bones), func(j int) bool {
		n := int(idmap[bones[j].ID])
		return j == gi || gn <= n && n < gn+len(bones) && n != gn+gi
	})
}
func Inv_Lemma_GLTFBoneNode__nod(m *mqoToGltf, bones []*mqo.Bone, k, gi, gn int) bool {
	return k <= gi || VForall(0, gn+k, func(j int) bool { return j == gn+gi || m.Nodes[j] != m.Nodes[gn+gi] })
}
func Inv_Lemma_GLTFBoneNode__nod2(m *mqoToGltf, bones []*mqo.Bone, gi, gn int) bool {
	return VForall(0, gn+len(bones), func(j int) bool { return j == gn+gi || m.Nodes[j] != m.Nodes[gn+gi] })
}
func vHasU(m map[int]uint32, k int) bool {
	_, ok := m[k]
	return ok
}
func Inv_Lemma_GLTFBoneNode__root(m *mqoToGltf, k, gi, gn int, gb *mqo.Bone, gpos mqo.Vector3, gs float32) bool {
	nd := m.Nodes[gn+gi]
	return k <= gi || gb.Parent > 0 || VEq(nd.Translation[0], gpos.X*gs) && VEq(nd.Translation[1], gpos.Y*gs) && VEq(nd.Translation[2], gpos.Z*gs)
}
func Inv_Lemma_GLTFBoneNode__child(m *mqoToGltf, k, gi, gn int, gb *mqo.Bone, gpos, gppos mqo.Vector3, gs float32) bool {
	nd := m.Nodes[gn+gi]
	return k <= gi || gb.Parent <= 0 || VEq(nd.Translation[0], (gpos.X-gppos.X)*gs) && VEq(nd.Translation[1], (gpos.Y-gppos.Y)*gs) && VEq(nd.Translation[2], (gpos.Z-gppos.Z)*gs)
}

// skinning: joints and weights have one entry per vertex; every joint refers to an entry of the joint list
func Lemma_GLTFWeights(m *mqoToGltf, bones []*mqo.Bone, obj *mqo.Object, index map[int]uint32, gv int) {
	VPartial()
	VRequires(0 <= gv && gv < len(obj.Vertexes))
	VRequires(VForall(0, len(bones), func(i int) bool {
		return bones[i] != nil && VForall(0, len(bones[i].Weights), func(j int) bool {
			return bones[i].Weights[j] != nil && VForall(0, len(bones[i].Weights[j].Vertexes), func(k int) bool { return bones[i].Weights[j].Vertexes[k] != nil })
		})
	}))
	gn := len(obj.Vertexes)
	ids, joints, weights := m.getWeights(bones, obj, index)
	VRequires(len(ids) < 65536)
	VAssert("count", len(ids) == 0 && joints == nil && weights == nil || len(joints) == gn && len(weights) == gn)
	VAssert("joint_valid", joints == nil || vSlots(joints, gv, len(ids)-1))
}

func vSlots(j [][4]uint16, v, n int) bool {
	return int(j[v][0]) <= n && int(j[v][1]) <= n && int(j[v][2]) <= n && int(j[v][3]) <= n
}
func Inv_Lemma_GLTFWeights__n(joints [][4]uint16, weights [][4]float32, njoint []int, gn int) bool {
	return joints == nil || len(joints) == gn && len(weights) == gn && len(njoint) == gn
}
func Inv_Lemma_GLTFWeights__n0(joints [][4]uint16, weights [][4]float32, jointIds []uint32) bool {
	return joints != nil || len(jointIds) == 0 && weights == nil
}
func Inv_Lemma_GLTFWeights__n1(joints [][4]uint16, weights [][4]float32, jointIds []uint32) bool {
	return joints == nil || len(jointIds) > 0
}
func Inv_Lemma_GLTFWeights__v(joints [][4]uint16, jointIds []uint32, gv int) bool {
	return len(jointIds) >= 65536 || joints == nil || vSlots(joints, gv, len(jointIds)-1)
}
func Inv_Lemma_GLTFWeights__v1(joints [][4]uint16, jointIds []uint32, gv int) bool {
	return len(jointIds) >= 65535 || joints == nil || vSlots(joints, gv, len(jointIds))
}

// a physics body's shapes are placed relative to the node they belong to
func Lemma_GLTFPhysics(node *gltf.Node, body *mqo.PhysicsBody, s *mqo.PhysicsShape, scale float32, pos *geom.Vector3) {
	VRequires(len(body.Shapes) == 1 && body.Shapes[0] == s && s != nil && node.Extensions == nil)
	addPhysicsBody(node, body, scale, pos)
	p, ok := node.Extensions[BlenderPhysicsName].(*BlenderPhysicsBody)
	VAssert("body", ok && p != nil && p.Mass == body.Mass && p.Static == body.Kinematic)
	VAssert("groups", p.CollisionGroups == body.CollisionGroup && p.CollisionMasks == body.CollisionMask)
	VAssert("shapes", len(p.Shapes) == 1)
	t := p.Shapes[0]["offsetTranslation"].([3]float32)
	VAssert("translation", VEq(t[0], (s.Position.X-pos.X)*scale) && VEq(t[1], (s.Position.Y-pos.Y)*scale) && VEq(t[2], (s.Position.Z-pos.Z)*scale))
	b := p.Shapes[0]["boundingBox"].([3]float32)
	VAssert("size", VEq(b[0], s.Size.X*scale) && VEq(b[1], s.Size.Y*scale) && VEq(b[2], s.Size.Z*scale))
}

// material colours carry over; emission is scaled into range
func Lemma_GLTFMaterial(m *mqoToGltf, mat *mqo.Material) {
	VRequires(m.MQOToGLTFOption != nil && m.extensions != nil)
	VRequires(mat.Texture == "" && mat.BumpTexture == "" && mat.Ex2 == nil)
	r := m.convertMaterial(mat, nil, nil)
	VAssert("name", r.Name == mat.Name && r.DoubleSided == mat.DoubleSided)
	c := r.PBRMetallicRoughness.BaseColorFactor
	VAssert("color", c != nil && c[0] == mat.Color.X && c[1] == mat.Color.Y && c[2] == mat.Color.Z && c[3] == mat.Color.W)
	VAssert("alpha", (r.AlphaMode == gltf.AlphaBlend) == (mat.Color.W < 0.99))
	e := r.EmissiveFactor
	VAssert("emission_range", e[0] <= 1.001 && e[1] <= 1.001 && e[2] <= 1.001)
	x := mat.EmissionColor
	VAssert("emission", x == nil || x.X > 1 || x.Y > 1 || x.Z > 1 || e[0] == x.X && e[1] == x.Y && e[2] == x.Z)
	VAssert("emission_ratio", x == nil || VEq(e[0]*x.Y, e[1]*x.X) && VEq(e[1]*x.Z, e[2]*x.Y))
	VAssert("no_emission", x != nil || mat.Emission > 0 || e[0] == 0 && e[1] == 0 && e[2] == 0)
}
