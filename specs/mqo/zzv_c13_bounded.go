//go:build go1.21

package mqo

import "github.com/binzume/modelconv/geom"

// bounded stand-in: the world transform of an object is its parent's world transform times its own local
// transform, the parent being the nearest earlier object of smaller depth
func Bounded_WorldTransforms(depths []uint8, ts []Vector3, sel []uint8) {
	VRequires(len(ts) > 0)
	doc := NewDocument()
	n := len(depths)
	for i := 0; i < n; i++ {
		o := NewObject("o")
		o.Depth = int(depths[i]) % 4
		t := ts[i%len(ts)]
		o.Translation = &t
		if len(sel) > 0 {
			o.Rotation = geom.NewVector3(float32(sel[i%len(sel)])*7, float32(i)*11, float32(depths[i])*5)
			o.Scale = geom.NewVector3(1+float32(i%3), 1, 1)
		}
		doc.Objects = append(doc.Objects, o)
	}
	w := doc.GetWorldTransforms()
	VAssert("one_each", len(w) == n)
	for i := 0; i < n; i++ {
		o := doc.Objects[i]
		want := o.GetLocalTransform()
		for j := i - 1; j >= 0; j-- {
			if doc.Objects[j].Depth < o.Depth {
				want = w[doc.Objects[j]].Mul(want)
				break
			}
		}
		VAssert("parent_times_local", w[o] != nil && geom.VvEqM(w[o], want))
	}
}
