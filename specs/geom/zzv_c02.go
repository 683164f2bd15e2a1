//go:build go1.21

package geom

// Leibniz formula
func vDet(m *Matrix4) Element {
	return vRow(m, 0, 0)*vRow(m, 1, 1)*vRow(m, 2, 2)*vRow(m, 3, 3) - vRow(m, 0, 0)*vRow(m, 1, 1)*vRow(m, 2, 3)*vRow(m, 3, 2) - vRow(m, 0, 0)*vRow(m, 1, 2)*vRow(m, 2, 1)*vRow(m, 3, 3) + vRow(m, 0, 0)*vRow(m, 1, 2)*vRow(m, 2, 3)*vRow(m, 3, 1) + vRow(m, 0, 0)*vRow(m, 1, 3)*vRow(m, 2, 1)*vRow(m, 3, 2) - vRow(m, 0, 0)*vRow(m, 1, 3)*vRow(m, 2, 2)*vRow(m, 3, 1) - vRow(m, 0, 1)*vRow(m, 1, 0)*vRow(m, 2, 2)*vRow(m, 3, 3) + vRow(m, 0, 1)*vRow(m, 1, 0)*vRow(m, 2, 3)*vRow(m, 3, 2) + vRow(m, 0, 1)*vRow(m, 1, 2)*vRow(m, 2, 0)*vRow(m, 3, 3) - vRow(m, 0, 1)*vRow(m, 1, 2)*vRow(m, 2, 3)*vRow(m, 3, 0) - vRow(m, 0, 1)*vRow(m, 1, 3)*vRow(m, 2, 0)*vRow(m, 3, 2) + vRow(m, 0, 1)*vRow(m, 1, 3)*vRow(m, 2, 2)*vRow(m, 3, 0) + vRow(m, 0, 2)*vRow(m, 1, 0)*vRow(m, 2, 1)*vRow(m, 3, 3) - vRow(m, 0, 2)*vRow(m, 1, 0)*vRow(m, 2, 3)*vRow(m, 3, 1) - vRow(m, 0, 2)*vRow(m, 1, 1)*vRow(m, 2, 0)*vRow(m, 3, 3) + vRow(m, 0, 2)*vRow(m, 1, 1)*vRow(m, 2, 3)*vRow(m, 3, 0) + vRow(m, 0, 2)*vRow(m, 1, 3)*vRow(m, 2, 0)*vRow(m, 3, 1) - vRow(m, 0, 2)*vRow(m, 1, 3)*vRow(m, 2, 1)*vRow(m, 3, 0) - vRow(m, 0, 3)*vRow(m, 1, 0)*vRow(m, 2, 1)*vRow(m, 3, 2) + vRow(m, 0, 3)*vRow(m, 1, 0)*vRow(m, 2, 2)*vRow(m, 3, 1) + vRow(m, 0, 3)*vRow(m, 1, 1)*vRow(m, 2, 0)*vRow(m, 3, 2) - vRow(m, 0, 3)*vRow(m, 1, 1)*vRow(m, 2, 2)*vRow(m, 3, 0) - vRow(m, 0, 3)*vRow(m, 1, 2)*vRow(m, 2, 0)*vRow(m, 3, 1) + vRow(m, 0, 3)*vRow(m, 1, 2)*vRow(m, 2, 1)*vRow(m, 3, 0)
}

func Contract_Matrix4_Det(m *Matrix4) {
	d := m.Det()
	VAssert("determinant", VEqS(d, vDet(m), vMag(m)))
}

func Contract_Matrix4_Inverse(m *Matrix4) {
	r := m.Inverse()
	d := vDet(m)
	VAssert("adjugate", d == 0 || VForall(0, 4, func(i int) bool {
		return VForall(0, 4, func(j int) bool {
			var e Element
			if i == j {
				e = 1
			}
			return VEq(vMulEntry(m, r, i, j), e)
		})
	}))
	VAssert("adjugate_left", d == 0 || VForall(0, 4, func(i int) bool {
		return VForall(0, 4, func(j int) bool {
			var e Element
			if i == j {
				e = 1
			}
			return VEq(vMulEntry(r, m, i, j), e)
		})
	}))
	VAssert("singular_gives_zero", d != 0 || VForall(0, 16, func(i int) bool { return r[i] == 0 }))
	VAssert("fresh", VFresh(r))
}

func Contract_Matrix4_Transposed(m *Matrix4) {
	r := m.Transposed()
	VAssert("swaps", VForall(0, 4, func(i int) bool {
		return VForall(0, 4, func(j int) bool { return vRow(r, i, j) == vRow(m, j, i) })
	}))
	VAssert("fresh", VFresh(r))
}

func Lemma_ApplyProduct(a, b *Matrix4, v *Vector3) {
	VRequires(VEqT(b[3], 0) && VEqT(b[7], 0) && VEqT(b[11], 0) && VEqT(b[15], 1))
	x := b.ApplyTo(v)
	y := a.ApplyTo(x)
	p := a.Mul(b)
	z := p.ApplyTo(v)
	VAssert("composition", VEq(y.X, z.X) && VEq(y.Y, z.Y) && VEq(y.Z, z.Z))
}

func Lemma_InverseUndoes(m *Matrix4, v *Vector3) {
	VRequires(vAffine(m) && m.Det() != 0)
	VRequires(Abs(m.Det()) > 0.1 && Abs(m.Det()) < 1000)
	inv := m.Inverse()
	VAssert("left_inverse", vEqM(inv.Mul(m), NewMatrix4()))
	VAssert("right_inverse", vEqM(m.Mul(inv), NewMatrix4()))
	VAssert("affine", VEq(inv[3], 0) && VEq(inv[7], 0) && VEq(inv[11], 0) && VEq(inv[15], 1))
	Lemma_ApplyProduct(inv, m, v)
	Lemma_ApplyProduct(m, inv, v)
	VAssert("undo_point", vEq3(inv.ApplyTo(m.ApplyTo(v)), v))
	VAssert("redo_point", vEq3(m.ApplyTo(inv.ApplyTo(v)), v))
}

func Lemma_DetLaws(a, b *Matrix4, x, y, z Element) {
	VAssert("multiplicative", VEqS(a.Mul(b).Det(), a.Det()*b.Det(), vMag(a)*vMag(b)))
	VAssert("transpose", VEqS(a.Transposed().Det(), a.Det(), vMag(a)))
	VAssert("identity", VEq(NewMatrix4().Det(), 1))
	VAssert("scale", VEq(NewScaleMatrix4(x, y, z).Det(), x*y*z))
	VAssert("translate", VEq(NewTranslateMatrix4(x, y, z).Det(), 1))
}

func Lemma_TransposeLaws(a, b *Matrix4) {
	VAssert("involution", *a.Transposed().Transposed() == *a)
	VAssert("antimultiplicative", vEqM(a.Mul(b).Transposed(), b.Transposed().Mul(a.Transposed())))
}
