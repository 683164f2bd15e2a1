//go:build go1.21

package mmd

import "bytes"

func vWidth(b byte) bool { return b == 1 || b == 2 || b == 4 }

// index widths of the tables
type VWidths struct{ Vert, Tex, Mat, Bone, Morph, Body byte }

func vWidths(s VWidths) bool {
	return vWidth(s.Vert) && vWidth(s.Tex) && vWidth(s.Mat) && vWidth(s.Bone) && vWidth(s.Morph) && vWidth(s.Body)
}

// the header the writer produces, with any index widths
func vHeader(s VWidths) *Header {
	return &Header{Version: 2, Info: []byte{1, 0, s.Vert, s.Tex, s.Mat, s.Bone, s.Morph, s.Body}}
}

// v fits a signed index of the given width
func vFits(w byte, v int) bool {
	return w == 1 && -128 <= v && v < 128 || w == 2 && -32768 <= v && v < 32768 || w == 4 && -2147483648 <= v && v < 2147483648
}
func vFitsU(w byte, v int) bool {
	return w == 1 && 0 <= v && v < 256 || w == 2 && 0 <= v && v < 65536 || w == 4 && 0 <= v && v < 4294967296
}

func vFaceRT(s VWidths, f *Face) {
	VRequires(vWidths(s))
	h := vHeader(s)
	sz := s.Vert
	VRequires(vFitsU(sz, f.Verts[0]) && vFitsU(sz, f.Verts[1]) && vFitsU(sz, f.Verts[2]))
	var buf bytes.Buffer
	w := &PMXWriter{baseWriter: baseWriter{&buf}, header: h}
	r := &PMXParser{baseParser: baseParser{r: &buf}, header: h}
	w.writeFace(f)
	g := r.readFace()
	VAssert("verts", g.Verts == f.Verts)
	VAssert("consumed", VStreamEmpty(&buf))
}

func vMaterialRT(s VWidths, m *Material) {
	VRequires(vWidths(s))
	h := vHeader(s)
	VRequires(vFits(s.Tex, m.TextureID) && vFits(s.Tex, m.EnvID))
	VRequires(m.ToonType == 0 && vFits(s.Tex, m.Toon) || m.ToonType != 0 && 0 <= m.Toon && m.Toon < 256)
	VRequires(0 <= m.Count && m.Count < 2147483648)
	VRequires(len(m.Name) < 65536 && len(m.NameEn) < 65536 && len(m.Memo) < 65536)
	var buf bytes.Buffer
	w := &PMXWriter{baseWriter: baseWriter{&buf}, header: h}
	r := &PMXParser{baseParser: baseParser{r: &buf}, header: h}
	w.writeMaterial(m)
	g := r.readMaterial()
	VAssert("name", g.Name == m.Name && g.NameEn == m.NameEn && g.Memo == m.Memo)
	VAssert("colors", g.Color == m.Color && g.Specular == m.Specular && g.Specularity == m.Specularity && g.AColor == m.AColor)
	VAssert("edge", g.EdgeColor == m.EdgeColor && g.EdgeScale == m.EdgeScale && g.Flags == m.Flags)
	VAssert("textures", g.TextureID == m.TextureID && g.EnvID == m.EnvID && g.EnvMode == m.EnvMode)
	VAssert("toon", g.ToonType == m.ToonType && g.Toon == m.Toon)
	VAssert("count", g.Count == m.Count)
	VAssert("consumed", VStreamEmpty(&buf))
}

func vJointRT(s VWidths, m *Joint) {
	VRequires(vWidths(s))
	h := vHeader(s)
	VRequires(vFits(s.Body, m.Body1) && vFits(s.Body, m.Body2))
	VRequires(len(m.Name) < 65536 && len(m.NameEn) < 65536)
	var buf bytes.Buffer
	w := &PMXWriter{baseWriter: baseWriter{&buf}, header: h}
	r := &PMXParser{baseParser: baseParser{r: &buf}, header: h}
	w.writeJoint(m)
	g := r.readJoint()
	VAssert("name", g.Name == m.Name && g.NameEn == m.NameEn && g.Type == m.Type)
	VAssert("bodies", g.Body1 == m.Body1 && g.Body2 == m.Body2)
	VAssert("frame", g.Position == m.Position && g.Rotation == m.Rotation)
	VAssert("limits", g.PositionMin == m.PositionMin && g.PositionMax == m.PositionMax && g.RotationMin == m.RotationMin && g.RotationMax == m.RotationMax)
	VAssert("springs", g.LinerSpring == m.LinerSpring && g.AngulerSpring == m.AngulerSpring)
	VAssert("consumed", VStreamEmpty(&buf))
}

func vBodyRT(s VWidths, m *RigidBody) {
	VRequires(vWidths(s))
	h := vHeader(s)
	VRequires(vFits(s.Bone, m.Bone) && vFits(1, m.Group) && vFits(2, m.GroupTarget))
	VRequires(len(m.Name) < 65536 && len(m.NameEn) < 65536)
	var buf bytes.Buffer
	w := &PMXWriter{baseWriter: baseWriter{&buf}, header: h}
	r := &PMXParser{baseParser: baseParser{r: &buf}, header: h}
	w.writeBody(m)
	g := r.readRigidBody()
	VAssert("name", g.Name == m.Name && g.NameEn == m.NameEn)
	VAssert("refs", g.Bone == m.Bone && g.Group == m.Group && g.GroupTarget == m.GroupTarget && g.Shape == m.Shape && g.Mode == m.Mode)
	VAssert("frame", g.Size == m.Size && g.Position == m.Position && g.Rotation == m.Rotation)
	VAssert("params", g.Mass == m.Mass && g.LinearDamping == m.LinearDamping && g.AngularDamping == m.AngularDamping && g.Restitution == m.Restitution && g.Friction == m.Friction)
	VAssert("consumed", VStreamEmpty(&buf))
}
func Lemma_FaceRoundTrip_w1(s VWidths, f *Face)         { s.Vert = 1; vFaceRT(s, f) }
func Lemma_FaceRoundTrip_w2(s VWidths, f *Face)         { s.Vert = 2; vFaceRT(s, f) }
func Lemma_FaceRoundTrip_w4(s VWidths, f *Face)         { s.Vert = 4; vFaceRT(s, f) }
func Lemma_MaterialRoundTrip_w1(s VWidths, m *Material) { s.Tex = 1; vMaterialRT(s, m) }
func Lemma_MaterialRoundTrip_w2(s VWidths, m *Material) { s.Tex = 2; vMaterialRT(s, m) }
func Lemma_MaterialRoundTrip_w4(s VWidths, m *Material) { s.Tex = 4; vMaterialRT(s, m) }
func Lemma_JointRoundTrip_w1(s VWidths, m *Joint)       { s.Body = 1; vJointRT(s, m) }
func Lemma_JointRoundTrip_w2(s VWidths, m *Joint)       { s.Body = 2; vJointRT(s, m) }
func Lemma_JointRoundTrip_w4(s VWidths, m *Joint)       { s.Body = 4; vJointRT(s, m) }
func Lemma_BodyRoundTrip_w1(s VWidths, m *RigidBody)    { s.Bone = 1; vBodyRT(s, m) }
func Lemma_BodyRoundTrip_w2(s VWidths, m *RigidBody)    { s.Bone = 2; vBodyRT(s, m) }
func Lemma_BodyRoundTrip_w4(s VWidths, m *RigidBody)    { s.Bone = 4; vBodyRT(s, m) }

func vBoneRT(s VWidths, m *Bone, l1, l2 Link, nl int) {
	VRequires(vWidths(s))
	h := vHeader(s)
	z := s.Bone
	VRequires(vFits(z, m.ParentID) && vFits(z, m.TailID) && vFits(z, m.InheritParentID) && vFits(z, m.IK.TargetID))
	VRequires(vFits(z, l1.TargetID) && vFits(z, l2.TargetID))
	VRequires(0 <= m.Layer && m.Layer < 2147483648 && 0 <= m.IK.Loop && m.IK.Loop < 2147483648)
	VRequires(len(m.Name) < 65536 && len(m.NameEn) < 65536)
	VDecide(m.Flags&BoneFlagTailIndex != 0)
	VDecide(m.Flags&BoneFlagInheritRotation != 0)
	VDecide(m.Flags&BoneFlagInheritTranslation != 0)
	VDecide(m.Flags&BoneFlagFixedAxis != 0)
	VDecide(m.Flags&BoneFlagLocalAxis != 0)
	VDecide(m.Flags&BoneFlagExternalParent != 0)
	VDecide(m.Flags&BoneFlagEnableIK != 0)
	switch nl {
	case 0:
		m.IK.Links = nil
	case 1:
		VDecide(l1.HasLimit)
		m.IK.Links = []*Link{&l1}
	default:
		VDecide(l1.HasLimit)
		VDecide(l2.HasLimit)
		m.IK.Links = []*Link{&l1, &l2}
	}
	var buf bytes.Buffer
	w := &PMXWriter{baseWriter: baseWriter{&buf}, header: h}
	r := &PMXParser{baseParser: baseParser{r: &buf}, header: h}
	w.writeBone(m)
	g := r.readBone()
	VAssert("name", g.Name == m.Name && g.NameEn == m.NameEn)
	VAssert("place", g.Pos == m.Pos && g.ParentID == m.ParentID && g.Layer == m.Layer && g.Flags == m.Flags)
	if m.Flags&BoneFlagTailIndex != 0 {
		VAssert("tail_bone", g.TailID == m.TailID)
	} else {
		VAssert("tail_pos", g.TailID == -1 && g.TailPos == m.TailPos)
	}
	if m.Flags&BoneFlagInheritRotation != 0 || m.Flags&BoneFlagInheritTranslation != 0 {
		VAssert("inherit", g.InheritParentID == m.InheritParentID && g.InheritParentInfluence == m.InheritParentInfluence)
	}
	if m.Flags&BoneFlagFixedAxis != 0 {
		VAssert("axis", g.FixedAxis == m.FixedAxis)
	}
	if m.Flags&BoneFlagEnableIK != 0 {
		VAssert("ik", g.IK.TargetID == m.IK.TargetID && g.IK.Loop == m.IK.Loop && g.IK.LimitRad == m.IK.LimitRad)
		VAssert("links", len(g.IK.Links) == len(m.IK.Links))
		for i, l := range m.IK.Links {
			k := g.IK.Links[i]
			VAssert("link", k.TargetID == l.TargetID && k.HasLimit == l.HasLimit)
			VAssert("link_limits", !l.HasLimit || k.LimitMin == l.LimitMin && k.LimitMax == l.LimitMax)
		}
	}
	VAssert("consumed", VStreamEmpty(&buf))
}

func Lemma_BoneRoundTrip_w1(s VWidths, m *Bone, l1, l2 Link) { s.Bone = 1; vBoneRT(s, m, l1, l2, 0) }
func Lemma_BoneRoundTrip_w2(s VWidths, m *Bone, l1, l2 Link) { s.Bone = 2; vBoneRT(s, m, l1, l2, 2) }
func Lemma_BoneRoundTrip_w4(s VWidths, m *Bone, l1, l2 Link) { s.Bone = 4; vBoneRT(s, m, l1, l2, 1) }

// nb bones with nw weights; n extra texture coordinates
func vVertexRT(s VWidths, m *Vertex, nb, nw, nx int, b [4]int, ww [11]float32, x [4]Vector4) {
	VRequires(vWidths(s))
	h := vHeader(s)
	z := s.Bone
	for i := 0; i < nb; i++ {
		VRequires(vFits(z, b[i]))
	}
	m.Bones = nil
	m.BoneWeights = nil
	m.ExtUVs = nil
	for i := 0; i < nb; i++ {
		m.Bones = append(m.Bones, b[i])
	}
	if nw == 11 {
		m.BoneWeights = []float32{ww[0], ww[1], ww[2], ww[3], ww[4], ww[5], ww[6], ww[7], ww[8], ww[9], ww[10]}
	} else {
		for i := 0; i < nw; i++ {
			m.BoneWeights = append(m.BoneWeights, ww[i])
		}
	}
	for i := 0; i < nx; i++ {
		m.ExtUVs = append(m.ExtUVs, x[i])
	}
	h.Info[AttrExtUV] = byte(nx)
	p, n, uv, e := m.Pos, m.Normal, m.UV, m.EdgeScale
	var buf bytes.Buffer
	w := &PMXWriter{baseWriter: baseWriter{&buf}, header: h}
	r := &PMXParser{baseParser: baseParser{r: &buf}, header: h}
	w.writeVertex(m)
	g := r.readVertex()
	VAssert("attributes", g.Pos == p && g.Normal == n && g.UV == uv && g.EdgeScale == e)
	VAssert("extra_uv_count", len(g.ExtUVs) == nx)
	for i := 0; i < nx; i++ {
		VAssert("extra_uv", g.ExtUVs[i] == x[i])
	}
	VAssert("influences", len(g.Bones) >= nb && len(g.BoneWeights) >= nw)
	for i := 0; i < nb; i++ {
		VAssert("bone", g.Bones[i] == b[i])
	}
	for i := 0; i < nw; i++ {
		switch {
		case nw == 1:
			VAssert("weight_one", g.BoneWeights[0] == 1)
		case nw == 2 && i == 1 || nw == 11 && i == 1: // two bones: the second weight is the complement of the first
			VAssert("weight_complement", g.BoneWeights[1] == 1-ww[0])
		default:
			VAssert("weight", g.BoneWeights[i] == ww[i])
		}
	}
	for i := nw; i < len(g.BoneWeights); i++ {
		VAssert("padding", VEq(g.BoneWeights[i], 0))
	}
	VAssert("consumed", VStreamEmpty(&buf))
}

func Lemma_VertexRoundTrip_1bone(s VWidths, m *Vertex, b [4]int, ww [11]float32, x [4]Vector4) {
	VDecide(s.Bone == 1)
	VDecide(s.Bone == 2)
	VDecide(s.Bone == 4)
	vVertexRT(s, m, 1, 1, 0, b, ww, x)
}
func Lemma_VertexRoundTrip_2bones(s VWidths, m *Vertex, b [4]int, ww [11]float32, x [4]Vector4) {
	VDecide(s.Bone == 1)
	VDecide(s.Bone == 2)
	VDecide(s.Bone == 4)
	vVertexRT(s, m, 2, 2, 1, b, ww, x)
}
func Lemma_VertexRoundTrip_3bones(s VWidths, m *Vertex, b [4]int, ww [11]float32, x [4]Vector4) {
	VDecide(s.Bone == 1)
	VDecide(s.Bone == 2)
	VDecide(s.Bone == 4)
	vVertexRT(s, m, 3, 3, 0, b, ww, x)
}
func Lemma_VertexRoundTrip_4bones(s VWidths, m *Vertex, b [4]int, ww [11]float32, x [4]Vector4) {
	VDecide(s.Bone == 1)
	VDecide(s.Bone == 2)
	VDecide(s.Bone == 4)
	vVertexRT(s, m, 4, 4, 4, b, ww, x)
}
func Lemma_VertexRoundTrip_sdef(s VWidths, m *Vertex, b [4]int, ww [11]float32, x [4]Vector4) {
	VDecide(s.Bone == 1)
	VDecide(s.Bone == 2)
	VDecide(s.Bone == 4)
	vVertexRT(s, m, 2, 11, 0, b, ww, x)
}

func vMorphRT(s VWidths, m *Morph) *Morph {
	h := vHeader(s)
	VRequires(vWidths(s))
	VRequires(len(m.Name) < 65536 && len(m.NameEn) < 65536)
	var buf bytes.Buffer
	w := &PMXWriter{baseWriter: baseWriter{&buf}, header: h}
	r := &PMXParser{baseParser: baseParser{r: &buf}, header: h}
	w.writeMorph(m)
	g := r.readMorph()
	VAssert("head", g.Name == m.Name && g.NameEn == m.NameEn && g.PanelType == m.PanelType && g.MorphType == m.MorphType)
	VAssert("counts", len(g.Group) == len(m.Group) && len(g.Vertex) == len(m.Vertex) && len(g.UV) == len(m.UV) && len(g.Material) == len(m.Material))
	VAssert("consumed", VStreamEmpty(&buf))
	return g
}
func Lemma_MorphRoundTrip_group(s VWidths, m Morph, a, b MorphGroup) {
	VRequires(vWidths(s))
	VDecide(s.Morph == 1)
	VDecide(s.Morph == 2)
	VDecide(s.Morph == 4)
	VRequires(vFits(s.Morph, a.Target) && vFits(s.Morph, b.Target))
	m.MorphType, m.Vertex, m.UV, m.Material = 0, nil, nil, nil
	m.Group = []*MorphGroup{&a, &b}
	g := vMorphRT(s, &m)
	VAssert("group", *g.Group[0] == a && *g.Group[1] == b)
}
func Lemma_MorphRoundTrip_vertex(s VWidths, m Morph, a, b MorphVertex) {
	VRequires(vWidths(s))
	VDecide(s.Vert == 1)
	VDecide(s.Vert == 2)
	VDecide(s.Vert == 4)
	VRequires(vFitsU(s.Vert, a.Target) && vFitsU(s.Vert, b.Target))
	m.MorphType, m.Group, m.UV, m.Material = 1, nil, nil, nil
	m.Vertex = []*MorphVertex{&a, &b}
	g := vMorphRT(s, &m)
	VAssert("vertex", *g.Vertex[0] == a && *g.Vertex[1] == b)
}
func Lemma_MorphRoundTrip_uv(s VWidths, m Morph, a, b MorphUV) {
	VRequires(vWidths(s))
	VDecide(s.Vert == 1)
	VDecide(s.Vert == 2)
	VDecide(s.Vert == 4)
	VRequires(vFitsU(s.Vert, a.Target) && vFitsU(s.Vert, b.Target))
	m.MorphType, m.Group, m.Vertex, m.Material = 3, nil, nil, nil
	m.UV = []*MorphUV{&a, &b}
	g := vMorphRT(s, &m)
	VAssert("uv", *g.UV[0] == a && *g.UV[1] == b)
}
func Lemma_MorphRoundTrip_material(s VWidths, m Morph, a, b MorphMaterial) {
	VRequires(vWidths(s))
	VDecide(s.Mat == 1)
	VDecide(s.Mat == 2)
	VDecide(s.Mat == 4)
	VRequires(vFits(s.Mat, a.Target) && vFits(s.Mat, b.Target))
	m.MorphType, m.Group, m.Vertex, m.UV = 8, nil, nil, nil
	m.Material = []*MorphMaterial{&a, &b}
	g := vMorphRT(s, &m)
	VAssert("material", *g.Material[0] == a && *g.Material[1] == b)
}

// a document with a fixed number of records of every kind and arbitrary contents
func Lemma_DocumentRoundTrip(name, nameEn, comment, commentEn, t1, t2 string, v1, v2 Vertex, f1, f2 Face, m1, m2 Material, b1, b2 Bone, o1 Morph, ov MorphVertex, r1, r2 RigidBody, j1 Joint) {
	s := VWidths{2, 1, 1, 2, 1, 1}
	VRequires(len(name) < 65536 && len(nameEn) < 65536 && len(comment) < 65536 && len(commentEn) < 65536 && len(t1) < 65536 && len(t2) < 65536)
	for i := 0; i < 3; i++ {
		VRequires(vFitsU(2, f1.Verts[i]) && vFitsU(2, f2.Verts[i]))
	}
	v1.Bones, v1.BoneWeights, v1.ExtUVs = []int{0}, []float32{1}, nil
	v2.Bones, v2.BoneWeights, v2.ExtUVs = []int{0, 1}, []float32{0.25, 0.75}, nil
	for _, m := range []*Material{&m1, &m2} {
		VRequires(vFits(1, m.TextureID) && vFits(1, m.EnvID))
		VRequires(0 <= m.Toon && m.Toon < 128)
		VRequires(0 <= m.Count && m.Count < 2147483648)
		VRequires(len(m.Name) < 65536 && len(m.NameEn) < 65536 && len(m.Memo) < 65536)
		m.ToonType = 1
	}
	for _, b := range []*Bone{&b1, &b2} {
		VRequires(vFits(2, b.ParentID) && vFits(2, b.TailID) && vFits(2, b.InheritParentID) && vFits(2, b.IK.TargetID))
		VRequires(0 <= b.Layer && b.Layer < 2147483648 && 0 <= b.IK.Loop && b.IK.Loop < 2147483648)
		VRequires(len(b.Name) < 65536 && len(b.NameEn) < 65536)
		b.IK.Links = nil
		b.Flags = BoneFlagRotatable | BoneFlagVisible
	}
	b2.Flags = BoneFlagTailIndex | BoneFlagFixedAxis | BoneFlagEnableIK
	o1.MorphType, o1.Group, o1.UV, o1.Material = 1, nil, nil, nil
	o1.Vertex = []*MorphVertex{&ov}
	VRequires(vFitsU(2, ov.Target) && len(o1.Name) < 65536 && len(o1.NameEn) < 65536)
	for _, b := range []*RigidBody{&r1, &r2} {
		VRequires(vFits(2, b.Bone) && vFits(1, b.Group) && vFits(2, b.GroupTarget))
		VRequires(len(b.Name) < 65536 && len(b.NameEn) < 65536)
	}
	VRequires(vFits(1, j1.Body1) && vFits(1, j1.Body2) && len(j1.Name) < 65536 && len(j1.NameEn) < 65536)
	d := &Document{Header: vHeader(s), Name: name, NameEn: nameEn, Comment: comment, CommentEn: commentEn,
		Vertexes: []*Vertex{&v1, &v2}, Faces: []*Face{&f1, &f2}, Textures: []string{t1, t2}, Materials: []*Material{&m1, &m2},
		Bones: []*Bone{&b1, &b2}, Morphs: []*Morph{&o1}, Bodies: []*RigidBody{&r1, &r2}, Joints: []*Joint{&j1}}
	var buf bytes.Buffer
	err := WritePMX(d, &buf)
	VAssert("written", err == nil)
	g, err := NewPMXParser(&buf).Parse()
	VAssert("parsed", err == nil)
	VAssert("header", string(g.Header.Format) == "PMX " && g.Header.Version == 2 && len(g.Header.Info) == 8)
	VAssert("widths", g.Header.Info[2] == 2 && g.Header.Info[3] == 1 && g.Header.Info[4] == 1 && g.Header.Info[5] == 2 && g.Header.Info[6] == 1 && g.Header.Info[7] == 1)
	VAssert("texts", g.Name == name && g.NameEn == nameEn && g.Comment == comment && g.CommentEn == commentEn)
	VAssert("counts", len(g.Vertexes) == 2 && len(g.Faces) == 2 && len(g.Textures) == 2 && len(g.Materials) == 2 && len(g.Bones) == 2 && len(g.Morphs) == 1 && len(g.Bodies) == 2 && len(g.Joints) == 1)
	VAssert("vertexes", g.Vertexes[0].Pos == v1.Pos && g.Vertexes[1].Pos == v2.Pos && g.Vertexes[1].Bones[1] == 1)
	VAssert("faces", *g.Faces[0] == f1 && *g.Faces[1] == f2)
	VAssert("textures", g.Textures[0] == t1 && g.Textures[1] == t2)
	VAssert("materials", *g.Materials[0] == m1 && *g.Materials[1] == m2)
	VAssert("bones", g.Bones[0].Name == b1.Name && g.Bones[0].ParentID == b1.ParentID && g.Bones[1].Name == b2.Name && g.Bones[1].TailID == b2.TailID)
	VAssert("morphs", g.Morphs[0].Name == o1.Name && *g.Morphs[0].Vertex[0] == ov)
	VAssert("bodies", *g.Bodies[0] == r1 && *g.Bodies[1] == r2)
	VAssert("joints", *g.Joints[0] == j1)
}
