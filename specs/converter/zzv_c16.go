//go:build go1.21

package converter

import (
	"github.com/binzume/modelconv/mmd"
	"github.com/binzume/modelconv/mqo"
)

// a point keeps X and Y and is mirrored in Z
func vMir(a *mmd.Vector3, b *mqo.Vector3) bool {
	return b != nil && VEq(a.X, b.X) && VEq(a.Y, b.Y) && VEq(-a.Z, b.Z)
}

func vMirV(a mmd.Vector3, b *mqo.Vector3) bool {
	return b != nil && VEq(a.X, b.X) && VEq(a.Y, b.Y) && VEq(-a.Z, b.Z)
}

func Lemma_MMDVector(c *mmdToMQO, v *mmd.Vector3) {
	old := *v
	r := c.convertVec3(v)
	VAssert("mirrored", vMir(&old, r))
	VAssert("source_kept", *v == old && r != v)
}

func Lemma_MMDMaterial(c *mmdToMQO, mat *mmd.Material, model *mmd.Document) {
	VRequires(mat.TextureID < len(model.Textures))
	old := *mat
	m := c.convertMaterial(mat, model)
	VAssert("name", m.Name == old.Name)
	VAssert("color", m.Color.X == old.Color.X && m.Color.Y == old.Color.Y && m.Color.Z == old.Color.Z && m.Color.W == old.Color.W)
	VAssert("power", m.Power == old.Specularity)
	VAssert("double_sided", m.DoubleSided == (old.Flags&1 == 1))
	VAssert("texture", old.TextureID < 0 && m.Texture == "" || old.TextureID >= 0 && m.Texture == model.Textures[old.TextureID])
	VAssert("source_kept", *mat == old)
}

// the converted bone gi
func vMMDBone(c *mmdToMQO, p *mmd.Bone, b *mqo.Bone, i int) bool {
	return b != nil && b.ID == i+1 && b.Name == p.Name && b.Group == p.Layer && vMir(&p.Pos, &b.Pos.Vector3) &&
		(b.Movable == 1) == (p.Flags&4 != 0)
}
func vMMDParent(p *mmd.Bone, b *mqo.Bone) bool {
	return b != nil && (b.Parent == p.ParentID+1 || p.Flags&256 != 0 && b.Parent == p.InheritParentID+1)
}

func Lemma_MMDBones(c *mmdToMQO, pmx *mmd.Document, gi int) {
	VPartial()
	VRequires(0 <= gi && gi < len(pmx.Bones))
	VRequires(VForall(0, len(pmx.Bones), func(i int) bool { return pmx.Bones[i] != nil }))
	gp := pmx.Bones[gi]
	gn := len(pmx.Bones)
	bones := c.convertBones(pmx)
	VAssert("count", len(bones) == gn)
	VAssert("bone", vMMDBone(c, gp, bones[gi], gi))
	VAssert("parent", vMMDParent(gp, bones[gi]))
}

func Inv_Lemma_MMDBones__len(bones []*mqo.Bone, boneIdx, k int) bool { return len(bones) == k }
func Inv_Lemma_MMDBones__all(bones []*mqo.Bone, gn int) bool        { return len(bones) == gn }
func Inv_Lemma_MMDBones__b(c *mmdToMQO, gp *mmd.Bone, bones []*mqo.Bone, gi, k int) bool {
	return k <= gi || vMMDBone(c, gp, bones[gi], gi)
}
func Inv_Lemma_MMDBones__b2(c *mmdToMQO, gp *mmd.Bone, bones []*mqo.Bone, gi int) bool {
	return vMMDBone(c, gp, bones[gi], gi)
}
func Inv_Lemma_MMDBones__p(gp *mmd.Bone, bones []*mqo.Bone, gi, k int) bool {
	return k <= gi || vMMDParent(gp, bones[gi])
}
func Inv_Lemma_MMDBones__p2(gp *mmd.Bone, bones []*mqo.Bone, gi int) bool { return vMMDParent(gp, bones[gi]) }

func vMMDWF(pmx *mmd.Document, faces, face2mat []int) bool {
	return VForall(0, len(pmx.Vertexes), func(i int) bool { return pmx.Vertexes[i] != nil }) &&
		VForall(0, len(pmx.Faces), func(i int) bool {
			return pmx.Faces[i] != nil && VForall(0, 3, func(j int) bool {
				return 0 <= pmx.Faces[i].Verts[j] && pmx.Faces[i].Verts[j] < len(pmx.Vertexes)
			})
		}) &&
		VForall(0, len(faces), func(i int) bool {
			return 0 <= faces[i] && faces[i] < len(pmx.Faces) && faces[i] < len(face2mat)
		})
}

// faces: face gi has three corners and its material; corner gc has the texture coordinate and the mirrored
// normal of the vertex it comes from
func Lemma_MMDFaceShape(c *mmdToMQO, pmx *mmd.Document, faces, face2mat []int, gi, gc int) {
	VPartial()
	VRequires(0 <= gi && gi < len(faces) && 0 <= gc && gc < 3)
	VRequires(vMMDWF(pmx, faces, face2mat))
	gn := len(faces)
	gv := *pmx.Vertexes[pmx.Faces[faces[gi]].Verts[gc]]
	gno := gv.Normal
	gmat := face2mat[faces[gi]]
	o := &mqo.Object{}
	vmap := map[int]int{}
	c.convertFaces(pmx, faces, face2mat, o, vmap)
	VAssert("count", len(o.Faces) == gn)
	f := o.Faces[gi]
	VAssert("corners", vCorners(f))
	VAssert("material", f.Material == gmat)
	VAssert("uv", vUVIs(f.UVs, gc, gv))
	VAssert("normal", vMirV(gno, f.Normals[gc]))
}

func vCorners(f *mqo.Face) bool {
	return f != nil && len(f.Verts) == 3 && len(f.UVs) == 3 && len(f.Normals) == 3
}
func vUVIs(uvs []mqo.Vector2, gc int, gv mmd.Vertex) bool {
	return uvs[gc].X == gv.UV.X && uvs[gc].Y == gv.UV.Y
}
func Inv_Lemma_MMDFaceShape__len(o *mqo.Object, gn int) bool { return len(o.Faces) == gn }
func Inv_Lemma_MMDFaceShape__f(o *mqo.Object, gi, k int) bool {
	return k <= gi || vCorners(o.Faces[gi])
}
func Inv_Lemma_MMDFaceShape__m(o *mqo.Object, gmat, gi, k int) bool {
	return k <= gi || o.Faces[gi].Material == gmat
}
func Inv_Lemma_MMDFaceShape__u(o *mqo.Object, gc, gi, k int, gv mmd.Vertex) bool {
	return k <= gi || vUVIs(o.Faces[gi].UVs, gc, gv)
}
func Inv_Lemma_MMDFaceShape__n(o *mqo.Object, gc, gi, k int, gno mmd.Vector3) bool {
	return k <= gi || vMirV(gno, o.Faces[gi].Normals[gc])
}
func Inv_Lemma_MMDFaceShape__f1(o *mqo.Object, gi, k1 int) bool {
	return k1 <= gi || vCorners(o.Faces[gi])
}
func Inv_Lemma_MMDFaceShape__m1(o *mqo.Object, gmat, gi, k1 int) bool {
	return k1 <= gi || o.Faces[gi].Material == gmat
}
func Inv_Lemma_MMDFaceShape__u1(o *mqo.Object, gc, gi, k1 int, gv mmd.Vertex) bool {
	return k1 <= gi || vUVIs(o.Faces[gi].UVs, gc, gv)
}
func Inv_Lemma_MMDFaceShape__n1(o *mqo.Object, gc, gi, k1 int, gno mmd.Vector3) bool {
	return k1 <= gi || vMirV(gno, o.Faces[gi].Normals[gc])
}
func Inv_Lemma_MMDFaceShape__iu(uvs []mqo.Vector2, gc, gi, k1, k int, gv mmd.Vertex) bool {
	return k1 != gi || k <= gc || vUVIs(uvs, gc, gv)
}
func Inv_Lemma_MMDFaceShape__in(normals []*mqo.Vector3, gc, gi, k1, k int, gno mmd.Vector3) bool {
	return k1 != gi || k <= gc || vMirV(gno, normals[gc])
}

// corner gc of face gi refers to a vertex at the mirrored position of the vertex it comes from
func Lemma_MMDFacePosition(c *mmdToMQO, pmx *mmd.Document, faces, face2mat []int, gi, gc int) {
	VPartial()
	VRequires(0 <= gi && gi < len(faces) && 0 <= gc && gc < 3)
	VRequires(vMMDWF(pmx, faces, face2mat))
	gn := len(faces)
	gvi := pmx.Faces[faces[gi]].Verts[gc]
	gp := pmx.Vertexes[gvi].Pos
	o := &mqo.Object{}
	vmap := map[int]int{}
	c.convertFaces(pmx, faces, face2mat, o, vmap)
	VAssert("count", len(o.Faces) == gn)
	f := o.Faces[gi]
	mv, ok := vmap[gvi]
	VAssert("vmap", ok && mv == f.Verts[gc])
	VAssert("valid", 0 <= mv && mv < len(o.Vertexes))
	VAssert("position", vMir(&gp, o.Vertexes[mv]))
}

func vIn(vmap map[int]int, gvi int) bool {
	_, ok := vmap[gvi]
	return ok
}
func Inv_Lemma_MMDFacePosition__len(o *mqo.Object, gn int) bool { return len(o.Faces) == gn }
func Inv_Lemma_MMDFacePosition__r(o *mqo.Object, vmap map[int]int, gvi int) bool {
	return !vIn(vmap, gvi) || 0 <= vmap[gvi] && vmap[gvi] < len(o.Vertexes)
}
func Inv_Lemma_MMDFacePosition__p(o *mqo.Object, vmap map[int]int, gvi int, gp mmd.Vector3) bool {
	return !vIn(vmap, gvi) || vMir(&gp, o.Vertexes[vmap[gvi]])
}
func Inv_Lemma_MMDFacePosition__f(o *mqo.Object, vmap map[int]int, gc, gvi, gi, k int) bool {
	return k <= gi || vIn(vmap, gvi) && o.Faces[gi] != nil && o.Faces[gi].Verts[gc] == vmap[gvi]
}
func Inv_Lemma_MMDFacePosition__f1(o *mqo.Object, vmap map[int]int, gc, gvi, gi, k1 int) bool {
	return k1 <= gi || vIn(vmap, gvi) && o.Faces[gi] != nil && o.Faces[gi].Verts[gc] == vmap[gvi]
}
func Inv_Lemma_MMDFacePosition__in(vmap map[int]int, verts []int, gc, gvi, gi, k1, k int) bool {
	return k1 != gi || k <= gc || vIn(vmap, gvi) && verts[gc] == vmap[gvi]
}
func Inv_Lemma_MMDFaceShape__d(o *mqo.Object, normals []*mqo.Vector3) bool {
	return VDisjoint(o.Vertexes, normals)
}
func Inv_Lemma_MMDFaceShape__d0(o *mqo.Object, gi, k int) bool {
	return k <= gi || VDisjoint(o.Vertexes, o.Faces[gi].Normals)
}
func Inv_Lemma_MMDFaceShape__d1(o *mqo.Object, gi, k1 int) bool {
	return k1 <= gi || VDisjoint(o.Vertexes, o.Faces[gi].Normals)
}
