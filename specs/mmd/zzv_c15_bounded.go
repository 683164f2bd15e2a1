//go:build go1.21

package mmd

import (
	"bytes"
	"encoding/json"
	"strings"
)

func vClamp(w byte, v int, unsigned bool) int {
	n := 1 << (8 * uint(w))
	v = ((v % n) + n) % n
	if !unsigned && v >= n/2 {
		v -= n
	}
	return v
}

func vJSON(d *Document) string {
	b, _ := json.Marshal(d)
	return strings.ReplaceAll(string(b), "null", "[]")
}

func vNonNil[T any](s []*T) []*T {
	var r []*T
	for _, x := range s {
		if x != nil {
			y := *x
			r = append(r, &y)
		}
	}
	return r
}

// the document restricted to what a .pmx file with these index widths can hold
func vStorable(d *Document, s VWidths, ext int) *Document {
	d.Header = vHeader(s)
	d.Header.Format = []byte("PMX ")
	d.Header.Info[AttrExtUV] = byte(ext)
	d.Vertexes, d.Faces, d.Materials, d.Bones, d.Morphs, d.Bodies, d.Joints = vNonNil(d.Vertexes), vNonNil(d.Faces), vNonNil(d.Materials), vNonNil(d.Bones), vNonNil(d.Morphs), vNonNil(d.Bodies), vNonNil(d.Joints)
	for i, v := range d.Vertexes {
		v.Bones, v.BoneWeights = nil, nil
		n := []int{1, 2, 4, 11}[(i+len(d.Bones))%4]
		for k := 0; k < n; k++ {
			v.BoneWeights = append(v.BoneWeights, float32((k*3+i)%5)/4)
			if k < 4 && !(n == 11 && k > 1) {
				v.Bones = append(v.Bones, vClamp(s.Bone, 37*i*i+11*k-1, false))
			}
		}
		if n == 1 {
			v.BoneWeights[0] = 1
		}
		if n == 2 || n == 11 {
			v.BoneWeights[1] = 1 - v.BoneWeights[0]
		}
		v.ExtUVs = nil
		for k := 0; k < ext; k++ {
			v.ExtUVs = append(v.ExtUVs, Vector4{X: v.UV.X, Y: float32(k), Z: v.Pos.X, W: 2})
		}
	}
	for _, f := range d.Faces {
		for i := range f.Verts {
			f.Verts[i] = vClamp(s.Vert, f.Verts[i]*57, true)
		}
	}
	for _, m := range d.Materials {
		m.TextureID, m.EnvID = vClamp(s.Tex, m.TextureID, false), vClamp(s.Tex, m.EnvID, false)
		if m.ToonType == 0 {
			m.Toon = vClamp(s.Tex, m.Toon, false)
		} else {
			m.Toon = vClamp(1, m.Toon, true)
		}
		m.Count = vClamp(4, m.Count, true) & 0x7fffffff
	}
	for _, b := range d.Bones {
		b.ParentID = vClamp(s.Bone, b.ParentID, false)
		b.Layer = vClamp(4, b.Layer, true) & 0x7fffffff
		if b.Flags&BoneFlagTailIndex != 0 {
			b.TailID, b.TailPos = vClamp(s.Bone, b.TailID, false), Vector3{}
		} else {
			b.TailID = -1
		}
		if b.Flags&(BoneFlagInheritRotation|BoneFlagInheritTranslation) != 0 {
			b.InheritParentID = vClamp(s.Bone, b.InheritParentID, false)
		} else {
			b.InheritParentID, b.InheritParentInfluence = 0, 0
		}
		if b.Flags&BoneFlagFixedAxis == 0 {
			b.FixedAxis = Vector3{}
		}
		if b.Flags&BoneFlagEnableIK != 0 {
			b.IK.TargetID = vClamp(s.Bone, b.IK.TargetID, false)
			b.IK.Loop = vClamp(4, b.IK.Loop, true) & 0x7fffffff
			b.IK.Links = vNonNil(b.IK.Links)
			for _, l := range b.IK.Links {
				l.TargetID = vClamp(s.Bone, l.TargetID, false)
				if !l.HasLimit {
					l.LimitMin, l.LimitMax = Vector3{}, Vector3{}
				}
			}
		} else {
			b.IK.TargetID, b.IK.Loop, b.IK.LimitRad, b.IK.Links = 0, 0, 0, nil
		}
	}
	for i, m := range d.Morphs {
		m.Group, m.Vertex, m.UV, m.Material = vNonNil(m.Group), vNonNil(m.Vertex), vNonNil(m.UV), vNonNil(m.Material)
		m.MorphType = []byte{0, 1, 3, 8}[i%4]
		if m.MorphType != 0 {
			m.Group = nil
		}
		if m.MorphType != 1 {
			m.Vertex = nil
		}
		if m.MorphType != 3 {
			m.UV = nil
		}
		if m.MorphType != 8 {
			m.Material = nil
		}
		for _, x := range m.Group {
			x.Target = vClamp(s.Morph, x.Target, false)
		}
		for _, x := range m.Vertex {
			x.Target = vClamp(s.Vert, x.Target*57, true)
		}
		for _, x := range m.UV {
			x.Target = vClamp(s.Vert, x.Target*57, true)
		}
		for _, x := range m.Material {
			x.Target = vClamp(s.Mat, x.Target, false)
		}
	}
	for _, b := range d.Bodies {
		b.Bone, b.Group, b.GroupTarget = vClamp(s.Bone, b.Bone, false), vClamp(1, b.Group, false), vClamp(2, b.GroupTarget*311, false)
	}
	for _, j := range d.Joints {
		j.Body1, j.Body2 = vClamp(s.Body, j.Body1, false), vClamp(s.Body, j.Body2, false)
	}
	return d
}

// bounded: whole documents through the file format
func Bounded_FileRoundTrip(d Document, s VWidths, ext uint8) {
	doc := vStorable(&d, s, int(ext%5))
	want := vJSON(doc)
	var buf bytes.Buffer
	VAssert("written", WritePMX(doc, &buf) == nil)
	g, err := Parse(&buf)
	VAssert("parsed", err == nil)
	VAssert("same_document", vJSON(g) == want)
}
