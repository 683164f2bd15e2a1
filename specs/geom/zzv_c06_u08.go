//go:build go1.21

package geom

// the three corners are distinct and follow each other in the polygon's own (cyclic) order
func vCyclic(t [3]int) bool {
	return t[0] < t[1] && t[1] < t[2] || t[1] < t[2] && t[2] < t[0] || t[2] < t[0] && t[0] < t[1]
}

func Contract_Triangulate(poly []*Vector3) {
	VRequires(VForall(0, len(poly), func(i int) bool { return poly[i] != nil }))
	r := Triangulate(poly)
	VAssert("own_storage", len(r) == 0 || VFreshSlice(r))
	VAssert("none_below_three", len(poly) >= 3 || len(r) == 0)
	VAssert("count", len(poly) < 3 || len(r) == len(poly)-2)
	VAssert("range", VForall(0, len(r), func(k int) bool {
		t := r[k]
		return 0 <= t[0] && t[0] < len(poly) && 0 <= t[1] && t[1] < len(poly) && 0 <= t[2] && t[2] < len(poly)
	}))
	VAssert("polygon_order", VForall(0, len(r), func(k int) bool { return vCyclic(r[k]) }))
}

func Inv_Triangulate__len(ii []int, count int) bool { return len(ii) == count }
func Inv_Triangulate__lens(ii []int, dst [][3]int, poly []*Vector3) bool {
	return len(ii)+len(dst) == len(poly)
}
func Inv_Triangulate__lensf(ii []int, dst [][3]int, poly []*Vector3, k int) bool {
	return len(ii)+len(dst) == len(poly)+k
}
func Inv_Triangulate__min2(count int) bool       { return count >= 2 }
func Inv_Triangulate__min3(count int) bool       { return count >= 3 }
func Inv_Triangulate__pos(i, count int) bool     { return i < count }
func Inv_Triangulate__kpos(k int, ii []int) bool { return k <= len(ii)-2 }
func Inv_Triangulate__rng(ii []int, poly []*Vector3) bool {
	return VForall(0, len(ii), func(j int) bool { return 0 <= ii[j] && ii[j] < len(poly) })
}
func Inv_Triangulate__inc(ii []int) bool {
	return VForall(0, len(ii), func(j int) bool {
		return VForall(0, j, func(h int) bool { return ii[h] < ii[j] })
	})
}
func Inv_Triangulate__init(ii []int, k int) bool {
	return VForall(0, k, func(j int) bool { return ii[j] == j })
}
func Inv_Triangulate__drng(dst [][3]int, poly []*Vector3) bool {
	return VForall(0, len(dst), func(k int) bool {
		t := dst[k]
		return 0 <= t[0] && t[0] < len(poly) && 0 <= t[1] && t[1] < len(poly) && 0 <= t[2] && t[2] < len(poly)
	})
}
func Inv_Triangulate__ddist(dst [][3]int) bool {
	return VForall(0, len(dst), func(k int) bool { return vCyclic(dst[k]) })
}
func Inv_Triangulate__disj(ii []int, dst [][3]int) bool { return VDisjoint(ii, dst) }
