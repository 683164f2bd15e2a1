//go:build go1.21

package geom

func Lemma_DecomposeTRS(t *Vector3, q *Quaternion, s *Vector3) {
	VRequires(vUnitP(q) && s.X != 0 && s.Y > 0 && s.Z > 0)
	VRequires(Abs(s.X) > 0.01 && s.Y > 0.01 && s.Z > 0.01)
	m := NewTRSMatrix4(t, q, s)
	om := *m
	t2, q2, s2 := m.Decompose()
	VAssert("translation", vEq3(t2, t))
	VAssert("scale_recovered", vEq3(s2, s))
	VAssert("unit", vUnit(q2))
	VAssert("same_rotation", vEqM(NewRotationMatrix4FromQuaternion(q2), NewRotationMatrix4FromQuaternion(q)))
	VAssert("recomposes", vEqM(NewTRSMatrix4(t2, q2, s2), m))
	VAssert("unchanged", *m == om)
}
