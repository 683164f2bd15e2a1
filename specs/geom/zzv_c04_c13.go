//go:build go1.21

package geom

import "math"

// rotation about one coordinate axis by an angle, as a quaternion
func vAxisQ(axis int, angle Element) *Quaternion {
	c, s := Element(math.Cos(float64(angle/2))), Element(math.Sin(float64(angle/2)))
	if axis == 0 {
		return &Quaternion{s, 0, 0, c}
	}
	if axis == 1 {
		return &Quaternion{0, s, 0, c}
	}
	return &Quaternion{0, 0, s, c}
}

func vEulerQ(x, y, z Element, order RotationOrder) *Quaternion {
	qx, qy, qz := vAxisQ(0, x), vAxisQ(1, y), vAxisQ(2, z)
	switch order {
	case RotationOrderXYZ:
		return qx.Mul(qy).Mul(qz)
	case RotationOrderYXZ:
		return qy.Mul(qx).Mul(qz)
	case RotationOrderZXY:
		return qz.Mul(qx).Mul(qy)
	}
	return qz.Mul(qy).Mul(qx)
}

func vOrder(o RotationOrder) bool { return o >= RotationOrderXYZ && o <= RotationOrderZYX }

func Contract_EulerAngles_ToQuaternion(e *EulerAngles) {
	VRequires(vOrder(e.Order))
	q := e.ToQuaternion()
	VAssert("product_of_axis_rotations", vEq4(q, vEulerQ(e.X, e.Y, e.Z, e.Order)))
	VAssert("unit", vUnit(q))
	VAssert("fresh", VFresh(q))
}

// matrix of the rotation by the three angles in the named order
func vEulerMatrix(x, y, z Element, order RotationOrder) *Matrix4 {
	cx, sx := Element(math.Cos(float64(x))), Element(math.Sin(float64(x)))
	cy, sy := Element(math.Cos(float64(y))), Element(math.Sin(float64(y)))
	cz, sz := Element(math.Cos(float64(z))), Element(math.Sin(float64(z)))
	rx := &Matrix4{1, 0, 0, 0, 0, cx, sx, 0, 0, -sx, cx, 0, 0, 0, 0, 1}
	ry := &Matrix4{cy, 0, -sy, 0, 0, 1, 0, 0, sy, 0, cy, 0, 0, 0, 0, 1}
	rz := &Matrix4{cz, sz, 0, 0, -sz, cz, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1}
	switch order {
	case RotationOrderXYZ:
		return rx.Mul(ry).Mul(rz)
	case RotationOrderYXZ:
		return ry.Mul(rx).Mul(rz)
	case RotationOrderZXY:
		return rz.Mul(rx).Mul(ry)
	}
	return rz.Mul(ry).Mul(rx)
}

func vIsRotation(m *Matrix4) bool {
	return VEq(m[0]*m[0]+m[1]*m[1]+m[2]*m[2], 1) && VEq(m[4]*m[4]+m[5]*m[5]+m[6]*m[6], 1) && VEq(m[8]*m[8]+m[9]*m[9]+m[10]*m[10], 1) &&
		VEq(m[0]*m[4]+m[1]*m[5]+m[2]*m[6], 0) && VEq(m[0]*m[8]+m[1]*m[9]+m[2]*m[10], 0) && VEq(m[4]*m[8]+m[5]*m[9]+m[6]*m[10], 0) &&
		VEq(m[1]*m[6]-m[2]*m[5], m[8]) && VEq(m[2]*m[4]-m[0]*m[6], m[9]) && VEq(m[0]*m[5]-m[1]*m[4], m[10])
}

// entry whose arcsine is the middle angle of the order
func vMiddle(m *Matrix4, order RotationOrder) Element {
	switch order {
	case RotationOrderXYZ:
		return m[8]
	case RotationOrderYXZ:
		return m[9]
	case RotationOrderZXY:
		return m[6]
	}
	return m[2]
}

func Lemma_EulerFromMatrix_XYZ(q *Quaternion) { vEulerExtract(q, RotationOrderXYZ) }
func Lemma_EulerFromMatrix_YXZ(q *Quaternion) { vEulerExtract(q, RotationOrderYXZ) }
func Lemma_EulerFromMatrix_ZXY(q *Quaternion) { vEulerExtract(q, RotationOrderZXY) }
func Lemma_EulerFromMatrix_ZYX(q *Quaternion) { vEulerExtract(q, RotationOrderZYX) }

func vEulerExtract(q *Quaternion, order RotationOrder) {
	VRequires(vUnitP(q))
	m := NewRotationMatrix4FromQuaternion(q)
	mid := vMiddle(m, order)
	VRequires(mid > -0.99 && mid < 0.99)
	e := NewEulerFromMatrix4(m, order)
	VAssert("order_kept", e.Order == order)
	r := vEulerMatrix(e.X, e.Y, e.Z, order)
	VAssert("same_rotation", vEqM(r, m))
	e2 := NewEulerFromQuaternion(q, order)
	VAssert("quaternion_route_agrees", e2.X == e.X && e2.Y == e.Y && e2.Z == e.Z && e2.Order == order)
}

func Lemma_EulerConstructor(x, y, z Element, o RotationOrder) {
	e := NewEuler(x, y, z, o)
	VAssert("components", e.X == x && e.Y == y && e.Z == z && e.Order == o)
}

// the quaternion of the angles rotates like the matrix of the angles
func vEulerQM(x, y, z Element, o RotationOrder) {
	e := NewEuler(x, y, z, o)
	VAssert("same_rotation", vEqM(NewRotationMatrix4FromQuaternion(e.ToQuaternion()), vEulerMatrix(x, y, z, o)))
}
func Lemma_EulerQuaternionMatrix_XYZ(x, y, z Element) { vEulerQM(x, y, z, RotationOrderXYZ) }
func Lemma_EulerQuaternionMatrix_YXZ(x, y, z Element) { vEulerQM(x, y, z, RotationOrderYXZ) }
func Lemma_EulerQuaternionMatrix_ZXY(x, y, z Element) { vEulerQM(x, y, z, RotationOrderZXY) }
func Lemma_EulerQuaternionMatrix_ZYX(x, y, z Element) { vEulerQM(x, y, z, RotationOrderZYX) }
