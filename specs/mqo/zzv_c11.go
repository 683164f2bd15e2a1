//go:build go1.21

package mqo

// the morph operation applied to a base whose vertex storage is not shared with other objects
func Lemma_MorphMovesBase(m *MorphTargetList, doc *Document, target int, value float32, gb, gt, gi int) {
	VRequires(VForall(0, len(doc.Objects), func(i int) bool {
		return doc.Objects[i] != nil && VForall(0, len(doc.Objects[i].Vertexes), func(j int) bool { return doc.Objects[i].Vertexes[j] != nil })
	}))
	VRequires(VForall(0, len(m.Target), func(i int) bool { return m.Target[i] != nil }))
	VRequires(0 <= target && target < len(m.Target))
	VRequires(0 <= gb && gb < len(doc.Objects) && 0 <= gt && gt < len(doc.Objects) && gb != gt)
	gbo, gto := doc.Objects[gb], doc.Objects[gt]
	VRequires(gbo.Name == m.Base && gto.Name == m.Target[target].Name && gbo.Name != gto.Name)
	// the names of base and target are unique, and so is their storage
	VRequires(VForall(0, len(doc.Objects), func(i int) bool {
		return (i == gb || doc.Objects[i] != gbo && doc.Objects[i].Name != gbo.Name && VDisjoint(gbo.Vertexes, doc.Objects[i].Vertexes)) &&
			(i == gt || doc.Objects[i] != gto && doc.Objects[i].Name != gto.Name)
	}))
	// the base is not one of its own targets, and no target is listed twice
	VRequires(VForall(0, len(m.Target), func(i int) bool {
		return m.Target[i].Name != m.Base && (i == target || m.Target[i].Name != m.Target[target].Name)
	}))
	VRequires(len(gbo.Vertexes) == len(gto.Vertexes) && 0 <= gi && gi < len(gbo.Vertexes))
	gbv, gtv := *gbo.Vertexes[gi], *gto.Vertexes[gi]
	n := len(gbo.Vertexes)
	ok := m.Apply(doc, target, value)
	VAssert("applied", ok)
	VAssert("count", len(gbo.Vertexes) == n)
	v := gbo.Vertexes[gi]
	VAssert("blend", v != nil && VEq(v.X, gbv.X+value*(gtv.X-gbv.X)) && VEq(v.Y, gbv.Y+value*(gtv.Y-gbv.Y)) && VEq(v.Z, gbv.Z+value*(gtv.Z-gbv.Z)))
}

func Inv_Lemma_MorphMovesBase__names(objByID map[string]*Object, doc *Document, gbo *Object, gb, k int) bool {
	return k <= gb || objByID[gbo.Name] == gbo
}
func Inv_Lemma_MorphMovesBase__namet(objByID map[string]*Object, doc *Document, gto *Object, gt, k int) bool {
	return k <= gt || objByID[gto.Name] == gto
}
func Inv_Lemma_MorphMovesBase__gdiffk(diff []*Vector3, gbv, gtv Vector3, value float32, gi, k int) bool {
	d := diff[gi]
	return k <= gi || d != nil && VEq(d.X, value*(gtv.X-gbv.X)) && VEq(d.Y, value*(gtv.Y-gbv.Y)) && VEq(d.Z, value*(gtv.Z-gbv.Z))
}
func Inv_Lemma_MorphMovesBase__mapok(objByID map[string]*Object, gbo *Object) bool {
	return VForallKey(objByID, func(s string) bool {
		o := objByID[s]
		return o != nil && o.Name == s && (o == gbo || VDisjoint(gbo.Vertexes, o.Vertexes))
	})
}
func Inv_Lemma_MorphMovesBase__gdiff(diff []*Vector3, gbv, gtv Vector3, value float32, gi int) bool {
	d := diff[gi]
	return d != nil && VEq(d.X, value*(gtv.X-gbv.X)) && VEq(d.Y, value*(gtv.Y-gbv.Y)) && VEq(d.Z, value*(gtv.Z-gbv.Z))
}
func vMorphState(gbo *Object, gi int, gbv, gtv Vector3, value float32, done bool) bool {
	v := gbo.Vertexes[gi]
	return v != nil && (!done && *v == gbv || done && VEq(v.X, gbv.X+value*(gtv.X-gbv.X)) && VEq(v.Y, gbv.Y+value*(gtv.Y-gbv.Y)) && VEq(v.Z, gbv.Z+value*(gtv.Z-gbv.Z)))
}
func Inv_Lemma_MorphMovesBase__outer(gbo *Object, gi int, gbv, gtv Vector3, value float32, k, target int) bool {
	return vMorphState(gbo, gi, gbv, gtv, value, k > target)
}
func Inv_Lemma_MorphMovesBase__inner(gbo *Object, gi int, gbv, gtv Vector3, value float32, k, k1, target int) bool {
	return vMorphState(gbo, gi, gbv, gtv, value, k1 > target || k1 == target && k > gi)
}

func Inv_MorphTargetList_Apply__vs(o *Object) bool {
	return VForall(0, len(o.Vertexes), func(j int) bool { return o.Vertexes[j] != nil })
}
func Inv_MorphTargetList_Apply__allvs(doc *Document) bool {
	return VForall(0, len(doc.Objects), func(i int) bool {
		return VForall(0, len(doc.Objects[i].Vertexes), func(j int) bool { return doc.Objects[i].Vertexes[j] != nil })
	})
}
func Inv_MorphTargetList_Apply__dnn(diff []*Vector3, k int) bool {
	return VForall(0, k, func(j int) bool { return diff[j] != nil })
}
func Inv_MorphTargetList_Apply__dn(diff []*Vector3) bool {
	return VForall(0, len(diff), func(j int) bool { return diff[j] != nil })
}
func Inv_MorphTargetList_Apply__mapdoc(objByID map[string]*Object, doc *Document) bool {
	return VForallKey(objByID, func(s string) bool {
		return objByID[s] != nil && VExists(0, len(doc.Objects), func(i int) bool { return doc.Objects[i] == objByID[s] })
	})
}

// a missing base, a missing target or a different number of vertices: nothing is changed and false is returned
func Lemma_MorphRejects(m *MorphTargetList, doc *Document, target int, value float32, ga, gi int) {
	VRequires(VForall(0, len(doc.Objects), func(i int) bool {
		return doc.Objects[i] != nil && VForall(0, len(doc.Objects[i].Vertexes), func(j int) bool { return doc.Objects[i].Vertexes[j] != nil })
	}))
	VRequires(VForall(0, len(m.Target), func(i int) bool { return m.Target[i] != nil }))
	VRequires(0 <= target && target < len(m.Target) && 0 <= ga && ga < len(doc.Objects))
	gao := doc.Objects[ga]
	VRequires(0 <= gi && gi < len(gao.Vertexes))
	gp := gao.Vertexes[gi]
	gv := *gp
	ok := m.Apply(doc, target, value)
	VAssert("unchanged", ok || gao.Vertexes[gi] == gp && *gp == gv)
	VAssert("missing_base", !ok || VExists(0, len(doc.Objects), func(i int) bool { return doc.Objects[i].Name == m.Base }))
	VAssert("missing_target", !ok || VExists(0, len(doc.Objects), func(i int) bool { return doc.Objects[i].Name == m.Target[target].Name }))
}

func Inv_Lemma_MorphRejects__dom(objByID map[string]*Object, doc *Document) bool {
	return VForallKey(objByID, func(s string) bool {
		return VExists(0, len(doc.Objects), func(i int) bool { return doc.Objects[i].Name == s })
	})
}
