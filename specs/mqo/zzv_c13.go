//go:build go1.21

package mqo

import "github.com/binzume/modelconv/geom"

// the stored angles are degrees, applied in the order Y, X, Z
func Lemma_AnglesReadBack(o *Object) {
	VRequires(o.Rotation != nil)
	r := o.GetRotation()
	a := o.Rotation.Scale(0.017453292519943295)
	VAssert("unit", VEq(r.X*r.X+r.Y*r.Y+r.Z*r.Z+r.W*r.W, 1))
	VAssert("read_back", geom.VvEqM(geom.NewRotationMatrix4FromQuaternion(r), geom.VvEulerYXZ(a.X, a.Y, a.Z)))
}

// setting a rotation and reading it back gives the same rotation
func Lemma_RotationRoundTrip(o *Object, q *geom.Quaternion) {
	VRequires(geom.VvUnit(q))
	m := geom.NewRotationMatrix4FromQuaternion(q)
	VRequires(m[9] > -0.99 && m[9] < 0.99)
	geom.Lemma_EulerFromMatrix_YXZ(q)
	o.SetRotation(q)
	VAssert("set", o.Rotation != nil)
	a := o.Rotation.Scale(0.017453292519943295)
	em := geom.VvEulerYXZ(a.X, a.Y, a.Z)
	VAssert("degrees", geom.VvEqM(em, m))
	Lemma_AnglesReadBack(o)
	rm := geom.NewRotationMatrix4FromQuaternion(o.GetRotation())
	VAssert("same_rotation", geom.VvEqM(rm, m))
}

// a composed transform whose rotation part equals that of another composes to the same matrix
func Lemma_TRSCongruence(t, t2 *Vector3, q, q2 *geom.Quaternion, s, s2 *Vector3) {
	VRequires(VEqT(t.X, t2.X) && VEqT(t.Y, t2.Y) && VEqT(t.Z, t2.Z) && VEqT(s.X, s2.X) && VEqT(s.Y, s2.Y) && VEqT(s.Z, s2.Z))
	VRequires(geom.VvEqM(geom.NewRotationMatrix4FromQuaternion(q), geom.NewRotationMatrix4FromQuaternion(q2)))
	VAssert("same", geom.VvEqM(geom.NewTRSMatrix4(t, q, s), geom.NewTRSMatrix4(t2, q2, s2)))
}

// storing a transform in an object and reading it back gives the same transform
func Lemma_LocalTransformRoundTrip(o *Object, t *Vector3, q *geom.Quaternion, s *Vector3) {
	VRequires(geom.VvUnit(q) && s.X > 0.01 && s.Y > 0.01 && s.Z > 0.01)
	qm := geom.NewRotationMatrix4FromQuaternion(q)
	VRequires(qm[9] > -0.99 && qm[9] < 0.99)
	m := geom.NewTRSMatrix4(t, q, s)
	geom.Lemma_DecomposeTRS(t, q, s)
	t2, q2, s2 := m.Decompose()
	o.SetLocalTransform(m)
	VAssert("set", o.Rotation != nil && o.Translation != nil && o.Scale != nil)
	VAssert("parts", geom.VvEq3(o.Translation, t2) && geom.VvEq3(o.Scale, s2))
	o2 := &Object{}
	Lemma_RotationRoundTrip(o2, q2)
	o2.SetRotation(q2)
	VAssert("rotation_part", geom.VvEqM(geom.NewRotationMatrix4FromQuaternion(o.GetRotation()), geom.NewRotationMatrix4FromQuaternion(q)))
	Lemma_TRSCongruence(t, o.Translation, q, o.GetRotation(), s, o.Scale)
	VAssert("same_transform", geom.VvEqM(o.GetLocalTransform(), m))
}
