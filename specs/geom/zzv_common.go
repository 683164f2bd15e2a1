//go:build go1.21

package geom

func vAffine(m *Matrix4) bool { return m[3] == 0 && m[7] == 0 && m[11] == 0 && m[15] == 1 }

func vEq3(a, b *Vector3) bool { return VEq(a.X, b.X) && VEq(a.Y, b.Y) && VEq(a.Z, b.Z) }
func vEq4(a, b *Vector4) bool {
	return VEq(a.X, b.X) && VEq(a.Y, b.Y) && VEq(a.Z, b.Z) && VEq(a.W, b.W)
}
func vEqM(a, b *Matrix4) bool {
	return VEq(a[0], b[0]) && VEq(a[1], b[1]) && VEq(a[2], b[2]) && VEq(a[3], b[3]) &&
		VEq(a[4], b[4]) && VEq(a[5], b[5]) && VEq(a[6], b[6]) && VEq(a[7], b[7]) &&
		VEq(a[8], b[8]) && VEq(a[9], b[9]) && VEq(a[10], b[10]) && VEq(a[11], b[11]) &&
		VEq(a[12], b[12]) && VEq(a[13], b[13]) && VEq(a[14], b[14]) && VEq(a[15], b[15])
}
func vUnit(q *Quaternion) bool  { return VEq(q.X*q.X+q.Y*q.Y+q.Z*q.Z+q.W*q.W, 1) }
func vUnitP(q *Quaternion) bool { return VEqT(q.X*q.X+q.Y*q.Y+q.Z*q.Z+q.W*q.W, 1) }
func vMag(m *Matrix4) Element {
	var s Element
	for i := 0; i < 16; i++ {
		s += Abs(m[i])
	}
	return 1 + s*s*s*s*1e-3
}

// mathematical definitions, independent of the code under verification
func vRow(m *Matrix4, r, c int) Element { return m[c*4+r] }
func vMulEntry(b, a *Matrix4, r, c int) Element {
	return vRow(b, r, 0)*vRow(a, 0, c) + vRow(b, r, 1)*vRow(a, 1, c) + vRow(b, r, 2)*vRow(a, 2, c) + vRow(b, r, 3)*vRow(a, 3, c)
}
func vRotate(q *Quaternion, v *Vector3) Vector3 {
	// v + 2w(u x v) + 2 u x (u x v)
	ux, uy, uz, w := q.X, q.Y, q.Z, q.W
	cx, cy, cz := uy*v.Z-uz*v.Y, uz*v.X-ux*v.Z, ux*v.Y-uy*v.X
	dx, dy, dz := uy*cz-uz*cy, uz*cx-ux*cz, ux*cy-uy*cx
	return Vector3{v.X + 2*w*cx + 2*dx, v.Y + 2*w*cy + 2*dy, v.Z + 2*w*cz + 2*dz}
}
