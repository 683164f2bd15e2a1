//go:build go1.21

package geom

import "math"

func Contract_Vector3_Normalize(v *Vector3) {
	o := *v
	l := Element(math.Sqrt(float64(o.X*o.X + o.Y*o.Y + o.Z*o.Z)))
	VMod(v)
	r := v.Normalize()
	VAssert("in_place", r == v)
	VAssert("direction", !(l > 0) || VEq(r.X, o.X/l) && VEq(r.Y, o.Y/l) && VEq(r.Z, o.Z/l))
	VAssert("unit", VEq(r.X*r.X+r.Y*r.Y+r.Z*r.Z, 1))
	VAssert("zero", l > 0 || VEq(r.X, 1) && VEq(r.Y, 0) && VEq(r.Z, 0))
}
