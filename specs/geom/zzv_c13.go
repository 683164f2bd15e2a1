//go:build go1.21

package geom

// exported views of the specification vocabulary for other packages' specifications
func VvEqM(a, b *Matrix4) bool            { return vEqM(a, b) }
func VvUnit(q *Quaternion) bool           { return vUnitP(q) }
func VvEulerYXZ(x, y, z Element) *Matrix4 { return vEulerMatrix(x, y, z, RotationOrderYXZ) }
func VvEq3(a, b *Vector3) bool            { return vEq3(a, b) }
