//go:build go1.21

package geom

import "math"

func Lemma_Vector3(a, b *Vector3, s Element) {
	oa, ob := *a, *b
	r := a.Add(b)
	VAssert("add", VEq(r.X, a.X+b.X) && VEq(r.Y, a.Y+b.Y) && VEq(r.Z, a.Z+b.Z))
	r = a.Sub(b)
	VAssert("sub", VEq(r.X, a.X-b.X) && VEq(r.Y, a.Y-b.Y) && VEq(r.Z, a.Z-b.Z))
	r = a.Scale(s)
	VAssert("scale", VEq(r.X, a.X*s) && VEq(r.Y, a.Y*s) && VEq(r.Z, a.Z*s))
	VAssert("dot", VEq(a.Dot(b), a.X*b.X+a.Y*b.Y+a.Z*b.Z))
	c := a.Cross(b)
	VAssert("cross", VEq(c.X, a.Y*b.Z-a.Z*b.Y) && VEq(c.Y, a.Z*b.X-a.X*b.Z) && VEq(c.Z, a.X*b.Y-a.Y*b.X))
	VAssert("cross_orthogonal", VEq(c.Dot(a), 0) && VEq(c.Dot(b), 0))
	VAssert("lensqr", VEq(a.LenSqr(), a.Dot(a)))
	VAssert("len", a.Len() >= 0 && VEq(a.Len()*a.Len(), a.X*a.X+a.Y*a.Y+a.Z*a.Z))
	VAssert("unchanged", *a == oa && *b == ob)
}

func Lemma_Vector2(a, b *Vector2, s Element) {
	oa, ob := *a, *b
	r := a.Add(b)
	VAssert("add", VEq(r.X, a.X+b.X) && VEq(r.Y, a.Y+b.Y))
	r = a.Sub(b)
	VAssert("sub", VEq(r.X, a.X-b.X) && VEq(r.Y, a.Y-b.Y))
	r = a.Scale(s)
	VAssert("scale", VEq(r.X, a.X*s) && VEq(r.Y, a.Y*s))
	VAssert("dot", VEq(a.Dot(b), a.X*b.X+a.Y*b.Y))
	VAssert("cross", VEq(a.Cross(b), a.X*b.Y-a.Y*b.X))
	VAssert("lensqr", VEq(a.LenSqr(), a.X*a.X+a.Y*a.Y))
	VAssert("len", a.Len() >= 0 && VEq(a.Len()*a.Len(), a.X*a.X+a.Y*a.Y))
	VAssert("unchanged", *a == oa && *b == ob)
	n := NewVector2(s, a.X)
	VAssert("new", n.X == s && n.Y == a.X)
}

func Contract_Vector2_Normalize(v *Vector2) {
	o := *v
	l := Element(math.Sqrt(float64(o.X*o.X + o.Y*o.Y)))
	VMod(v)
	r := v.Normalize()
	VAssert("in_place", r == v)
	VAssert("direction", !(l > 0) || VEq(r.X, o.X/l) && VEq(r.Y, o.Y/l))
	VAssert("unit", VEq(r.X*r.X+r.Y*r.Y, 1))
	VAssert("zero", l > 0 || VEq(r.X, 1) && VEq(r.Y, 0))
}

func Lemma_Vector4(a, b *Vector4, s Element) {
	oa, ob := *a, *b
	r := a.Add(b)
	VAssert("add", VEq(r.X, a.X+b.X) && VEq(r.Y, a.Y+b.Y) && VEq(r.Z, a.Z+b.Z) && VEq(r.W, a.W+b.W))
	r = a.Sub(b)
	VAssert("sub", VEq(r.X, a.X-b.X) && VEq(r.Y, a.Y-b.Y) && VEq(r.Z, a.Z-b.Z) && VEq(r.W, a.W-b.W))
	r = a.Scale(s)
	VAssert("scale", VEq(r.X, a.X*s) && VEq(r.Y, a.Y*s) && VEq(r.Z, a.Z*s) && VEq(r.W, a.W*s))
	r = a.HadamardProduct(b)
	VAssert("hadamard", VEq(r.X, a.X*b.X) && VEq(r.Y, a.Y*b.Y) && VEq(r.Z, a.Z*b.Z) && VEq(r.W, a.W*b.W))
	VAssert("dot", VEq(a.Dot(b), a.X*b.X+a.Y*b.Y+a.Z*b.Z+a.W*b.W))
	VAssert("lensqr", VEq(a.LenSqr(), a.X*a.X+a.Y*a.Y+a.Z*a.Z+a.W*a.W))
	VAssert("len", a.Len() >= 0 && VEq(a.Len()*a.Len(), a.X*a.X+a.Y*a.Y+a.Z*a.Z+a.W*a.W))
	VAssert("unchanged", *a == oa && *b == ob)
	n := NewVector4(s, a.X, a.Y, a.Z)
	VAssert("new", n.X == s && n.Y == a.X && n.Z == a.Y && n.W == a.Z)
}

func Contract_Vector4_Normalize(v *Vector4) {
	o := *v
	l := Element(math.Sqrt(float64(o.X*o.X + o.Y*o.Y + o.Z*o.Z + o.W*o.W)))
	VMod(v)
	r := v.Normalize()
	VAssert("in_place", r == v)
	VAssert("direction", !(l > 0) || VEq(r.X, o.X/l) && VEq(r.Y, o.Y/l) && VEq(r.Z, o.Z/l) && VEq(r.W, o.W/l))
	VAssert("unit", VEq(r.X*r.X+r.Y*r.Y+r.Z*r.Z+r.W*r.W, 1))
	VAssert("zero", l > 0 || VEq(r.X, 0) && VEq(r.Y, 0) && VEq(r.Z, 0) && VEq(r.W, 1))
}

func Lemma_Conversions(x, y, z Element, arr [3]Element, sl, dst []Element, v *Vector3) {
	VRequires(len(sl) >= 3 && len(dst) >= 3)
	a := NewVector3(x, y, z)
	VAssert("new", a.X == x && a.Y == y && a.Z == z)
	a = NewVector3FromArray(arr)
	VAssert("array", a.X == arr[0] && a.Y == arr[1] && a.Z == arr[2])
	a = NewVector3FromSlice(sl)
	VAssert("slice", a.X == sl[0] && a.Y == sl[1] && a.Z == sl[2])
	old := VOld(dst)
	v.ToArray(dst)
	VAssert("to_array", dst[0] == v.X && dst[1] == v.Y && dst[2] == v.Z)
	VAssert("rest", VForall(3, len(dst), func(i int) bool { return dst[i] == old[i] }))
}

func Lemma_Scalars(a, b Element) {
	VAssert("abs", Abs(a) >= 0 && (Abs(a) == a || Abs(a) == -a))
	m := Min(a, b)
	VAssert("min", m <= a && m <= b && (m == a || m == b))
	m = Max(a, b)
	VAssert("max", m >= a && m >= b && (m == a || m == b))
}
