//go:build go1.21

package mqo

func vEq3(a, b *Vector3) bool { return VEq(a.X, b.X) && VEq(a.Y, b.Y) && VEq(a.Z, b.Z) }

// image of a point under a matrix, written out
func vApply(m *Matrix4, v *Vector3) Vector3 {
	return Vector3{
		X: m[0]*v.X + m[4]*v.Y + m[8]*v.Z + m[12],
		Y: m[1]*v.X + m[5]*v.Y + m[9]*v.Z + m[13],
		Z: m[2]*v.X + m[6]*v.Y + m[10]*v.Z + m[14],
	}
}

func vIsImage(m *Matrix4, v Vector3, p *Vector3) bool {
	return p != nil && VEq(p.X, m[0]*v.X+m[4]*v.Y+m[8]*v.Z+m[12]) &&
		VEq(p.Y, m[1]*v.X+m[5]*v.Y+m[9]*v.Z+m[13]) && VEq(p.Z, m[2]*v.X+m[6]*v.Y+m[10]*v.Z+m[14])
}
