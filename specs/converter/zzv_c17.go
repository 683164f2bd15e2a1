//go:build go1.21

package converter

import (
	"github.com/binzume/modelconv/mmd"
	"github.com/binzume/modelconv/mqo"
)

// scaled and mirrored in Z
func vScaledMir(s float32, a mqo.Vector3, b mmd.Vector3) bool {
	return VEq(a.X*s, b.X) && VEq(a.Y*s, b.Y) && VEq(-a.Z*s, b.Z)
}

func Lemma_MQOVector(c *mqoToMMD, v *mqo.Vector3) {
	old := *v
	r := c.convertVec3(v)
	VAssert("image", r != nil && vScaledMir(c.Scale, old, *r))
	VAssert("source_kept", *v == old)
}

// converting to MQO space and back scales and nothing else
func Lemma_MQOVectorRoundTrip(c *mqoToMMD, d *mmdToMQO, v *mmd.Vector3) {
	old := *v
	r := c.convertVec3(d.convertVec3(v))
	VAssert("scaled", VEq(old.X*c.Scale, r.X) && VEq(old.Y*c.Scale, r.Y) && VEq(old.Z*c.Scale, r.Z))
}

func Lemma_MQOBone(c *mqoToMMD, bone *mqo.Bone) {
	pos, name := bone.Pos.Vector3, bone.Name
	b := c.convertBone(bone)
	VAssert("bone", b != nil && b.Name == name && vScaledMir(c.Scale, pos, b.Pos))
	VAssert("links", b.ParentID == -1 && b.TailID == -1 && len(b.IK.Links) == 0)
	VAssert("flags", b.Flags == 2|8|16)
}

func Lemma_MQOMaterial(c *mqoToMMD, m *mqo.Material, faceCount, texture int) {
	old := *m
	r := c.convertMaterial(m, faceCount, texture)
	VAssert("name", r.Name == old.Name)
	VAssert("color", r.Color.X == old.Color.X && r.Color.Y == old.Color.Y && r.Color.Z == old.Color.Z && r.Color.W == old.Color.W)
	VAssert("specularity", r.Specularity == old.Power)
	VAssert("texture", r.TextureID == texture)
	VAssert("count", r.Count == 3*faceCount)
}

func vBodyOK(c *mqoToMMD, b *mqo.PhysicsBody, s mqo.PhysicsShape, r *mmd.RigidBody, bi int, ok bool) bool {
	return r != nil && vScaledMir(c.Scale, mqo.Vector3(s.Position), r.Position) &&
		VEq(s.Size.X*c.Scale, r.Size.X) && VEq(s.Size.Y*c.Scale, r.Size.Y) && VEq(s.Size.Z*c.Scale, r.Size.Z) &&
		r.Rotation.X == s.Rotation.X && r.Rotation.Y == s.Rotation.Y && r.Rotation.Z == s.Rotation.Z &&
		(s.Type != "SPHERE" || r.Shape == 0) && (s.Type != "BOX" || r.Shape == 1) && (s.Type != "CAPSULE" || r.Shape == 2)
}
func vBodyAttrs(b *mqo.PhysicsBody, r *mmd.RigidBody, bi int, ok bool) bool {
	return r != nil && r.Mass == b.Mass && r.Group == b.CollisionGroup && r.GroupTarget == b.CollisionMask &&
		r.LinearDamping == b.LinearDamping && r.AngularDamping == b.AngularDamping &&
		r.Restitution == b.Restitution && r.Friction == b.Friction && (b.Kinematic && r.Mode == 0 || !b.Kinematic && r.Mode == 1) &&
		(ok && r.Bone == bi || !ok && r.Bone == -1)
}

// each shape of a body becomes one rigid body
func Lemma_MQOBody(c *mqoToMMD, b *mqo.PhysicsBody, index map[int]int, gi int) {
	VRequires(VForall(0, len(b.Shapes), func(i int) bool { return b.Shapes[i] != nil }))
	VRequires(0 <= gi && gi < len(b.Shapes))
	gn := len(b.Shapes)
	gs := *b.Shapes[gi]
	gb, gok := index[b.TargetBoneID]
	r := c.convertBody(b, index)
	VAssert("count", len(r) == gn)
	VAssert("shape", vBodyOK(c, b, gs, r[gi], gb, gok))
	VAssert("attributes", vBodyAttrs(b, r[gi], gb, gok))
	VAssert("name", gi > 0 || r[gi].Name == b.Name)
}

func Inv_Lemma_MQOBody__len(bodies []*mmd.RigidBody, k int) bool { return len(bodies) == k }
func Inv_Lemma_MQOBody__s(c *mqoToMMD, b *mqo.PhysicsBody, bodies []*mmd.RigidBody, gi, k, gb int, gok bool, gs mqo.PhysicsShape) bool {
	return k <= gi || vBodyOK(c, b, gs, bodies[gi], gb, gok)
}
func Inv_Lemma_MQOBody__a(b *mqo.PhysicsBody, bodies []*mmd.RigidBody, gi, k, gb int, gok bool) bool {
	return k <= gi || vBodyAttrs(b, bodies[gi], gb, gok)
}
func Inv_Lemma_MQOBody__n(b *mqo.PhysicsBody, bodies []*mmd.RigidBody, gi, k int) bool {
	return k <= gi || gi > 0 || bodies[gi].Name == b.Name
}

// weights: a vertex keeps at most four, paired, the ones it had first, and refers to existing bones
func Lemma_MQOWeights(c *mqoToMMD, dst *mmd.Document, obj *mqo.Object, vmap map[int][]int, bones []*mqo.Bone, gv, gi int) {
	VPartial()
	VRequires(0 <= gv && gv < len(dst.Vertexes))
	VRequires(VForall(0, len(dst.Vertexes), func(i int) bool {
		return dst.Vertexes[i] != nil && (i == gv || dst.Vertexes[i] != dst.Vertexes[gv] &&
			VDisjoint(dst.Vertexes[i].Bones, dst.Vertexes[gv].Bones) && VDisjoint(dst.Vertexes[i].BoneWeights, dst.Vertexes[gv].BoneWeights))
	}))
	gp := dst.Vertexes[gv]
	VRequires(len(gp.Bones) == len(gp.BoneWeights) && len(gp.Bones) <= 4)
	VRequires(0 <= gi && gi < len(gp.Bones))
	gn := len(gp.Bones)
	gb, gw := gp.Bones[gi], gp.BoneWeights[gi]
	gpos := gp.Pos
	c.setWeights(dst, obj, vmap, bones)
	VAssert("same_vertex", dst.Vertexes[gv] == gp && gp.Pos == gpos)
	VAssert("paired", len(gp.Bones) == len(gp.BoneWeights))
	VAssert("at_most_four", len(gp.Bones) <= 4)
	VAssert("bones_exist", VForall(gn, len(gp.Bones), func(i int) bool { return 0 <= gp.Bones[i] && gp.Bones[i] < len(bones) }))
	VAssert("kept", gn <= len(gp.Bones) && gp.Bones[gi] == gb && gp.BoneWeights[gi] == gw)
}
func Inv_Lemma_MQOWeights__p(gp *mmd.Vertex, gn int) bool {
	return len(gp.Bones) == len(gp.BoneWeights) && len(gp.Bones) <= 4 && gn <= len(gp.Bones)
}
func Inv_Lemma_MQOWeights__b(gp *mmd.Vertex, gi, gb int) bool { return gp.Bones[gi] == gb }
func Inv_Lemma_MQOWeights__w(gp *mmd.Vertex, gi int, gw float32) bool {
	return gp.BoneWeights[gi] == gw
}
func Inv_Lemma_MQOWeights__d(dst *mmd.Document, gp *mmd.Vertex, gv int) bool {
	return VForall(0, len(dst.Vertexes), func(i int) bool {
		return dst.Vertexes[i] != nil && (i == gv || dst.Vertexes[i] != gp &&
			VDisjoint(dst.Vertexes[i].Bones, gp.Bones) && VDisjoint(dst.Vertexes[i].BoneWeights, gp.BoneWeights))
	})
}
func Inv_Lemma_MQOWeights__s(dst *mmd.Document, gp *mmd.Vertex, gv int) bool { return dst.Vertexes[gv] == gp }
func Inv_Lemma_MQOWeights__v(gp *mmd.Vertex, bones []*mqo.Bone, gn int) bool {
	return VForall(gn, len(gp.Bones), func(i int) bool { return 0 <= gp.Bones[i] && gp.Bones[i] < len(bones) })
}
