//go:build go1.21

package mqo

// bounded stand-in: after any history of weight settings each object has one record, holding its weights in order
func Bounded_WeightHistory(objs []uint8, verts []uint8, ws []float32) {
	n := len(objs)
	if len(verts) < n {
		n = len(verts)
	}
	if len(ws) < n {
		n = len(ws)
	}
	b := &Bone{}
	for i := 0; i < n; i++ {
		b.SetVertexWeight(int(objs[i]%4), int(verts[i]), ws[i])
	}
	seen := map[int]bool{}
	for _, w := range b.Weights {
		VAssert("one_record", !seen[w.ObjectID])
		seen[w.ObjectID] = true
		at := 0
		for i := 0; i < n; i++ {
			if int(objs[i]%4) == w.ObjectID {
				VAssert("all_weights", at < len(w.Vertexes) && w.Vertexes[at].VertexID == int(verts[i]) && w.Vertexes[at].Weight == ws[i])
				at++
			}
		}
		VAssert("no_more", at == len(w.Vertexes) && at > 0)
	}
	for i := 0; i < n; i++ {
		VAssert("recorded", seen[int(objs[i]%4)])
	}
}
