//go:build go1.21

package mqo

// after FixNames any two objects have different names
func Lemma_ObjectNamesDistinct(doc *Document, ga, gb int) {
	VRequires(VForall(0, len(doc.Objects), func(i int) bool { return doc.Objects[i] != nil }))
	VRequires(VForall(0, len(doc.Materials), func(i int) bool { return doc.Materials[i] != nil }))
	VRequires(0 <= ga && ga < gb && gb < len(doc.Objects))
	goa, gob := doc.Objects[ga], doc.Objects[gb]
	VRequires(VForall(0, len(doc.Objects), func(i int) bool {
		return (i == ga || doc.Objects[i] != goa) && (i == gb || doc.Objects[i] != gob)
	}))
	n := len(doc.Objects)
	doc.FixNames()
	VAssert("same_objects", len(doc.Objects) == n && doc.Objects[ga] == goa && doc.Objects[gb] == gob)
	VAssert("distinct", goa.Name != gob.Name)
}

func Inv_Lemma_ObjectNamesDistinct__used(objNames map[string]bool, goa *Object, k, ga int) bool {
	return k <= ga || objNames[goa.Name]
}
func Inv_Lemma_ObjectNamesDistinct__used1(objNames map[string]bool, goa *Object, k1, ga int) bool {
	return k1 <= ga || objNames[goa.Name]
}
func Inv_Lemma_ObjectNamesDistinct__diff(goa, gob *Object, k, gb int) bool {
	return k <= gb || goa.Name != gob.Name
}
func Inv_Lemma_ObjectNamesDistinct__diff1(goa, gob *Object, k1, gb int) bool {
	return k1 <= gb || goa.Name != gob.Name
}
func Inv_Lemma_ObjectNamesDistinct__after(goa, gob *Object) bool { return goa.Name != gob.Name }

// after FixNames any two materials have different names
func Lemma_MaterialNamesDistinct(doc *Document, ga, gb int) {
	VRequires(VForall(0, len(doc.Objects), func(i int) bool { return doc.Objects[i] != nil }))
	VRequires(VForall(0, len(doc.Materials), func(i int) bool { return doc.Materials[i] != nil }))
	VRequires(0 <= ga && ga < gb && gb < len(doc.Materials))
	gma, gmb := doc.Materials[ga], doc.Materials[gb]
	VRequires(VForall(0, len(doc.Materials), func(i int) bool {
		return (i == ga || doc.Materials[i] != gma) && (i == gb || doc.Materials[i] != gmb)
	}))
	n := len(doc.Materials)
	doc.FixNames()
	VAssert("same_materials", len(doc.Materials) == n && doc.Materials[ga] == gma && doc.Materials[gb] == gmb)
	VAssert("distinct", gma.Name != gmb.Name)
}

func Inv_Lemma_MaterialNamesDistinct__used(matNames map[string]bool, gma *Material, k, ga int) bool {
	return k <= ga || matNames[gma.Name]
}
func Inv_Lemma_MaterialNamesDistinct__used1(matNames map[string]bool, gma *Material, k1, ga int) bool {
	return k1 <= ga || matNames[gma.Name]
}
func Inv_Lemma_MaterialNamesDistinct__diff(gma, gmb *Material, k, gb int) bool {
	return k <= gb || gma.Name != gmb.Name
}
func Inv_Lemma_MaterialNamesDistinct__diff1(gma, gmb *Material, k1, gb int) bool {
	return k1 <= gb || gma.Name != gmb.Name
}

// an object whose name no earlier object has (before or after the renaming) keeps it; in particular the
// first object keeps its name, and when all names differ nothing is renamed
func Lemma_FirstNameKept(doc *Document) {
	VRequires(VForall(0, len(doc.Objects), func(i int) bool {
		return doc.Objects[i] != nil && (i == 0 || doc.Objects[i] != doc.Objects[0])
	}))
	VRequires(VForall(0, len(doc.Materials), func(i int) bool {
		return doc.Materials[i] != nil && (i == 0 || doc.Materials[i] != doc.Materials[0])
	}))
	VRequires(len(doc.Objects) > 0 && len(doc.Materials) > 0)
	go0, gm0 := doc.Objects[0], doc.Materials[0]
	gon, gmn := go0.Name, gm0.Name
	doc.FixNames()
	VAssert("object", go0.Name == gon)
	VAssert("material", gm0.Name == gmn)
}

func Inv_Lemma_FirstNameKept__objs(go0 *Object, gon string) bool   { return go0.Name == gon }
func Inv_Lemma_FirstNameKept__mats(gm0 *Material, gmn string) bool { return gm0.Name == gmn }
func Inv_Lemma_FirstNameKept__nobjs(objNames map[string]bool, k int) bool {
	return k > 0 || VForallKey(objNames, func(s string) bool { return !objNames[s] })
}
func Inv_Lemma_FirstNameKept__nmats(matNames map[string]bool, k int) bool {
	return k > 0 || VForallKey(matNames, func(s string) bool { return !matNames[s] })
}

func Lemma_DistinctNamesKept(doc *Document, ga int) {
	VRequires(VForall(0, len(doc.Objects), func(i int) bool {
		return doc.Objects[i] != nil && VForall(0, i, func(j int) bool {
			return doc.Objects[i] != doc.Objects[j] && doc.Objects[i].Name != doc.Objects[j].Name
		})
	}))
	VRequires(VForall(0, len(doc.Materials), func(i int) bool { return doc.Materials[i] != nil }))
	VRequires(0 <= ga && ga < len(doc.Objects))
	goa := doc.Objects[ga]
	gname := goa.Name
	gobjs := VOld(doc.Objects)
	doc.FixNames()
	VAssert("kept", len(gobjs) == len(doc.Objects) && goa.Name == gname)
}

func Inv_Lemma_DistinctNamesKept__names(doc *Document, gobjs []*Object) bool {
	return VForall(0, len(gobjs), func(j int) bool { return doc.Objects[j].Name == gobjs[j].Name })
}
func Inv_Lemma_DistinctNamesKept__set(objNames map[string]bool, gobjs []*Object, k int) bool {
	return VForall(k, len(gobjs), func(j int) bool { return !objNames[gobjs[j].Name] })
}

// lookup by id returns the first object with that id, or nil when there is none
func Contract_Document_GetObjectByID(doc *Document, id int) {
	VRequires(VForall(0, len(doc.Objects), func(i int) bool { return doc.Objects[i] != nil }))
	r := doc.GetObjectByID(id)
	VAssert("has_id", r == nil || r.UID == id)
	VAssert("nil_only_if_absent", r != nil || VForall(0, len(doc.Objects), func(i int) bool { return doc.Objects[i].UID != id }))
	VAssert("first", VForall(0, len(doc.Objects), func(i int) bool {
		return doc.Objects[i].UID != id || doc.Objects[i] == r || VExists(0, i, func(j int) bool { return doc.Objects[j].UID == id })
	}))
}

func Inv_Document_GetObjectByID__none(doc *Document, id, k int) bool {
	return VForall(0, k, func(i int) bool { return doc.Objects[i].UID != id })
}

// assigning ids keeps the ids that are set and gives the others their position
func Lemma_FixObjectID(doc *Document, ga int) {
	VRequires(VForall(0, len(doc.Objects), func(i int) bool { return doc.Objects[i] != nil }))
	VRequires(0 <= ga && ga < len(doc.Objects))
	goa := doc.Objects[ga]
	VRequires(VForall(0, len(doc.Objects), func(i int) bool { return i == ga || doc.Objects[i] != goa }))
	gid := goa.UID
	doc.FixObjectID()
	VAssert("kept", gid == 0 || goa.UID == gid)
	VAssert("assigned", gid != 0 || goa.UID == ga+1)
}

func Inv_Lemma_FixObjectID__ids(goa *Object, gid, ga, k int) bool {
	return (k <= ga || gid != 0) && goa.UID == gid || k > ga && gid == 0 && goa.UID == ga+1
}

// a vertex id resolves through the id table first and is otherwise a 1-based position
func Contract_Object_GetVertexIndexByID(o *Object, uid int) {
	r := o.GetVertexIndexByID(uid)
	v, ok := o.VertexByUID[uid]
	VAssert("table", !ok || r == v)
	VAssert("position", ok || uid > len(o.Vertexes) || r == uid-1)
	VAssert("out_of_range", ok || uid <= len(o.Vertexes) || r == -1)
}
