//go:build go1.21

package mqo

import "github.com/binzume/modelconv/geom"

// bounded stand-in: applying a named morph moves the base of every list that has the target, by the weighted
// difference, moves the other targets of such lists along, and leaves everything else alone
func Bounded_MorphPlugin(base, t1, t2, other []Vector3, missing bool, unequal bool, value float32, pick uint8) {
	VRequires(len(base) > 0 && len(t1) >= len(base) && len(t2) >= len(base) && len(other) > 0)
	obj := func(name string, vs []Vector3) *Object {
		o := NewObject(name)
		for _, v := range vs {
			v := v
			o.Vertexes = append(o.Vertexes, &v)
		}
		return o
	}
	n := len(base)
	doc := NewDocument()
	a, b, c, d := obj("base", base), obj("smile", t1[:n]), obj("angry", t2[:n]), obj("other", other)
	if unequal {
		b.Vertexes = append(b.Vertexes, geom.NewVector3(1, 2, 3))
	}
	// a second base with the same targets, and an object that shares its vertices with the first base
	e, g := obj("base2", base), obj("twin", nil)
	g.Vertexes = append(g.Vertexes, a.Vertexes...)
	doc.Objects = append(doc.Objects, d, e, g, a, b)
	if !missing {
		doc.Objects = append(doc.Objects, c)
	}
	p := GetMorphPlugin(doc)
	p.MorphSet.Targets = []*MorphTargetList{{Base: "nothing", Target: []*MorphTarget{{Name: "smile"}, {Name: "angry"}}},
		{Base: "base", Target: []*MorphTarget{{Name: "smile"}, {Name: "angry"}}},
		{Base: "base2", Target: []*MorphTarget{{Name: "smile2"}, {Name: "smile"}}}}
	if pick&4 != 0 {
		l := p.MorphSet.Targets
		l[1], l[2] = l[2], l[1]
	}
	name := []string{"smile", "angry", "other", "unknown"}[pick%4]
	oa, ob, oc, od := VOld(a), VOld(b), VOld(c), VOld(d)
	upd := p.Apply(doc, name, value)
	possible := name == "smile" && !unequal || name == "angry" && !missing
	VAssert("reports", upd == possible)
	VAssert("twin_kept", len(g.Vertexes) == n)
	for i := range g.Vertexes {
		VAssert("twin_kept", *g.Vertexes[i] == *oa.Vertexes[i])
		df := ob.Vertexes[i].Sub(oa.Vertexes[i]).Scale(value)
		if name != "smile" || unequal {
			df = &Vector3{}
		}
		VAssert("second_base_blended", vEq3(e.Vertexes[i], oa.Vertexes[i].Add(df)))
	}
	at := func(o *Object, i int) *Vector3 {
		VAssert("vertex_present", i < len(o.Vertexes) && o.Vertexes[i] != nil)
		return o.Vertexes[i]
	}
	for i := range od.Vertexes {
		VAssert("others_kept", *at(d, i) == *od.Vertexes[i])
	}
	VAssert("counts", len(a.Vertexes) == len(oa.Vertexes) && len(b.Vertexes) == len(ob.Vertexes) && len(c.Vertexes) == len(oc.Vertexes) && len(d.Vertexes) == len(od.Vertexes))
	if !possible {
		for i := range oa.Vertexes {
			VAssert("nothing_changed", *at(a, i) == *oa.Vertexes[i] && *at(b, i) == *ob.Vertexes[i] && *at(c, i) == *oc.Vertexes[i])
		}
		return
	}
	for i := 0; i < n; i++ {
		from, to := oa.Vertexes[i], ob.Vertexes[i]
		if name == "angry" {
			to = oc.Vertexes[i]
		}
		df := to.Sub(from).Scale(value)
		VAssert("base_blended", vEq3(at(a, i), from.Add(df)))
		if name == "smile" {
			VAssert("target_kept", *at(b, i) == *ob.Vertexes[i])
			VAssert("sibling_moved", missing || vEq3(at(c, i), oc.Vertexes[i].Add(df)))
		} else {
			VAssert("target_kept", *at(c, i) == *oc.Vertexes[i])
			VAssert("sibling_moved", unequal && *at(b, i) == *ob.Vertexes[i] || vEq3(at(b, i), ob.Vertexes[i].Add(df)))
		}
	}
}

// bounded stand-in: a material morph blends the colour of the material it names and skips missing ones
func Bounded_MaterialMorph(c0, c1, c2 geom.Vector4, name string, value float32, missing bool) {
	doc := NewDocument()
	m0, m1, m2 := &Material{Name: "skin", Color: c0}, &Material{Name: "$MORPH:" + name + ":skin", Color: c1}, &Material{Name: "$MORPH:x" + name + ":skin", Color: c2}
	m3 := &Material{Name: "$MORPH:" + name + ":gone", Color: c2}
	if !missing {
		doc.Materials = append(doc.Materials, m0)
	}
	doc.Materials = append(doc.Materials, m1, m2, m3)
	GetMorphPlugin(doc).Apply(doc, name, value)
	VAssert("morph_materials_kept", m1.Color == c1 && m2.Color == c2 && m3.Color == c2)
	mix := func(a, b float32) float32 { return a*(1-value) + b*value }
	if missing {
		VAssert("kept", m0.Color == c0)
		return
	}
	c := m0.Color
	VAssert("blended", VEq(c.X, mix(c0.X, c1.X)) && VEq(c.Y, mix(c0.Y, c1.Y)) && VEq(c.Z, mix(c0.Z, c1.Z)) && VEq(c.W, mix(c0.W, c1.W)))
}
