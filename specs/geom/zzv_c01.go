//go:build go1.21

package geom

func Contract_Matrix4_Mul(b, a *Matrix4) {
	r := b.Mul(a)
	VAssert("row_by_column", VForall(0, 4, func(i int) bool {
		return VForall(0, 4, func(j int) bool { return VEq(vRow(r, i, j), vMulEntry(b, a, i, j)) })
	}))
	VAssert("fresh", VFresh(r))
}

func Lemma_MulThenApply(a, b *Matrix4, v *Vector3) {
	VRequires(vAffine(b))
	p := a.Mul(b).ApplyTo(v)
	q := a.ApplyTo(b.ApplyTo(v))
	VAssert("composition", vEq3(p, q))
	VAssert("affine_closed", !vAffine(a) || vAffine(a.Mul(b)))
}

func Lemma_Identity(m *Matrix4, v *Vector3) {
	i := NewMatrix4()
	VAssert("identity_apply", vEq3(i.ApplyTo(v), v))
	VAssert("identity_right", vEqM(m.Mul(i), m))
	VAssert("identity_left", vEqM(i.Mul(m), m))
	VAssert("identity_affine", vAffine(i))
}

func Lemma_MulAssociative(a, b, c *Matrix4) {
	VAssert("associative", vEqM(a.Mul(b).Mul(c), a.Mul(b.Mul(c))))
}

func Lemma_TranslateScale(x, y, z Element, v *Vector3) {
	t := NewTranslateMatrix4(x, y, z)
	p := t.ApplyTo(v)
	VAssert("translate", VEq(p.X, v.X+x) && VEq(p.Y, v.Y+y) && VEq(p.Z, v.Z+z))
	s := NewScaleMatrix4(x, y, z)
	p = s.ApplyTo(v)
	VAssert("scale", VEq(p.X, v.X*x) && VEq(p.Y, v.Y*y) && VEq(p.Z, v.Z*z))
	VAssert("affine", vAffine(t) && vAffine(s))
}

func Lemma_RotationMatrix(q *Quaternion, v *Vector3) {
	VRequires(vUnitP(q))
	m := NewRotationMatrix4FromQuaternion(q)
	r := vRotate(q, v)
	VAssert("rotation_applies", vEq3(m.ApplyTo(v), &r))
	VAssert("affine", vAffine(m))
}

func Lemma_TRS(t *Vector3, q *Quaternion, s *Vector3, v *Vector3) {
	VRequires(vUnitP(q))
	m := NewTRSMatrix4(t, q, s)
	sv := &Vector3{v.X * s.X, v.Y * s.Y, v.Z * s.Z}
	rv := vRotate(q, sv)
	p := m.ApplyTo(v)
	VAssert("scale_rotate_translate", VEq(p.X, rv.X+t.X) && VEq(p.Y, rv.Y+t.Y) && VEq(p.Z, rv.Z+t.Z))
	VAssert("affine", vAffine(m))
}

func Lemma_Entrywise(a, b *Matrix4, s Element) {
	p, m, k := a.Add(b), a.Sub(b), a.Scale(s)
	VAssert("add", VForall(0, 16, func(i int) bool { return VEq(p[i], a[i]+b[i]) }))
	VAssert("sub", VForall(0, 16, func(i int) bool { return VEq(m[i], a[i]-b[i]) }))
	VAssert("scale", VForall(0, 16, func(i int) bool { return VEq(k[i], a[i]*s) }))
	t := a.TranslationScale(s)
	VAssert("translation_scale", VForall(0, 16, func(i int) bool {
		if i >= 12 && i < 15 {
			return VEq(t[i], a[i]*s)
		}
		return t[i] == a[i]
	}))
	c := a.Clone()
	VAssert("clone", *c == *a && VFresh(c))
}

func Lemma_OperandsUnchanged(a, b *Matrix4, v, w *Vector3, q *Quaternion, s Element) {
	oa, ob, ov, ow, oq := *a, *b, *v, *w, *q
	a.Mul(b)
	a.Add(b)
	a.Sub(b)
	a.Scale(s)
	a.ApplyTo(v)
	a.TranslationScale(s)
	a.Clone()
	NewRotationMatrix4FromQuaternion(q)
	NewTRSMatrix4(v, q, w)
	VAssert("unchanged", *a == oa && *b == ob && *v == ov && *w == ow && *q == oq)
}

func Lemma_Slices(a []Element, m *Matrix4) {
	VRequires(len(a) == 16)
	r := NewMatrix4FromSlice(a)
	VAssert("from_slice", VForall(0, 16, func(i int) bool { return r[i] == a[i] }))
	m.ToArray(a)
	VAssert("to_array", VForall(0, 16, func(i int) bool { return m[i] == a[i] }))
}
