//go:build go1.21

package geom

func Contract_Vector4_Mul(a, b *Quaternion) {
	r := a.Mul(b)
	VAssert("hamilton", VEq(r.W, a.W*b.W-(a.X*b.X+a.Y*b.Y+a.Z*b.Z)) &&
		VEq(r.X, a.W*b.X+b.W*a.X+(a.Y*b.Z-a.Z*b.Y)) &&
		VEq(r.Y, a.W*b.Y+b.W*a.Y+(a.Z*b.X-a.X*b.Z)) &&
		VEq(r.Z, a.W*b.Z+b.W*a.Z+(a.X*b.Y-a.Y*b.X)))
	VAssert("fresh", VFresh(r))
}

func Contract_Vector4_ApplyTo(q *Quaternion, v *Vector3) {
	VRequires(vUnitP(q))
	r := q.ApplyTo(v)
	m := vRotate(q, v)
	VAssert("rotates", vEq3(r, &m))
	VAssert("fresh", VFresh(r))
}

func Lemma_RotationMatrixAgrees(q *Quaternion, v *Vector3) {
	VRequires(vUnitP(q))
	VAssert("matrix_agrees", vEq3(q.ApplyTo(v), NewRotationMatrix4FromQuaternion(q).ApplyTo(v)))
}

func Lemma_ProductRotates(a, b *Quaternion, v *Vector3) {
	VRequires(vUnitP(a) && vUnitP(b))
	ab := a.Mul(b)
	VAssert("unit_closed", vUnit(ab))
	VAssert("composition", vEq3(ab.ApplyTo(v), a.ApplyTo(b.ApplyTo(v))))
	VAssert("matrix_composition", vEqM(NewRotationMatrix4FromQuaternion(ab), NewRotationMatrix4FromQuaternion(a).Mul(NewRotationMatrix4FromQuaternion(b))))
}

func Lemma_InverseUndoesRotation(q *Quaternion, v *Vector3) {
	VRequires(vUnitP(q))
	i := q.Inverse()
	VAssert("unit", vUnit(i))
	VAssert("undo", vEq3(i.ApplyTo(q.ApplyTo(v)), v))
	VAssert("redo", vEq3(q.ApplyTo(i.ApplyTo(v)), v))
	VAssert("product_is_one", vEq4(q.Mul(i), &Quaternion{0, 0, 0, 1}))
	VAssert("matrix_is_transpose", vEqM(NewRotationMatrix4FromQuaternion(i), NewRotationMatrix4FromQuaternion(q).Transposed()))
}

func Lemma_RotationIsIsometry(q *Quaternion, v, w *Vector3) {
	VRequires(vUnitP(q))
	a, b := q.ApplyTo(v), q.ApplyTo(w)
	VAssert("dot", VEq(a.Dot(b), v.Dot(w)))
	VAssert("length", VEq(a.LenSqr(), v.LenSqr()))
	VAssert("orientation", vEq3(a.Cross(b), q.ApplyTo(v.Cross(w))))
	VAssert("det", VEq(NewRotationMatrix4FromQuaternion(q).Det(), 1))
}

func Lemma_QuaternionAlgebra(a, b, c *Quaternion) {
	VAssert("associative", vEq4(a.Mul(b).Mul(c), a.Mul(b.Mul(c))))
	one := &Quaternion{0, 0, 0, 1}
	VAssert("one_left", vEq4(one.Mul(a), a))
	VAssert("one_right", vEq4(a.Mul(one), a))
	VAssert("norm", VEq(a.Mul(b).LenSqr(), a.LenSqr()*b.LenSqr()))
	i := one.ApplyTo(&Vector3{a.X, a.Y, a.Z})
	VAssert("one_is_identity", VEq(i.X, a.X) && VEq(i.Y, a.Y) && VEq(i.Z, a.Z))
}

func Lemma_QuaternionOperandsUnchanged(a, b *Quaternion, v *Vector3) {
	oa, ob, ov := *a, *b, *v
	a.Mul(b)
	a.Inverse()
	if vUnitP(a) {
		a.ApplyTo(v)
	}
	NewRotationMatrix4FromQuaternion(a)
	VAssert("unchanged", *a == oa && *b == ob && *v == ov)
}

func Lemma_QuaternionConstructors(x, y, z, w Element, a [4]Element) {
	q := NewQuaternion(x, y, z, w)
	VAssert("components", q.X == x && q.Y == y && q.Z == z && q.W == w)
	p := NewQuaternionFromArray(a)
	VAssert("array", p.X == a[0] && p.Y == a[1] && p.Z == a[2] && p.W == a[3])
}
