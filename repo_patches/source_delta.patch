From 05443120cc48b81834e2def0489238decf619b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:53 +0000
Subject: [PATCH 01/13] fix: mqo: SetRotation stores angles in the order
 GetRotation reads them

GetRotation interprets Object.Rotation as YXZ (Metasequoia's head, pitch,
bank) but SetRotation extracted ZXY angles, so setting a rotation or a
local transform and reading it back gave a different rotation.
---
 mqo/mqo.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mqo/mqo.go b/mqo/mqo.go
index 9ed9d77..3b7e4ae 100644
--- a/mqo/mqo.go
+++ b/mqo/mqo.go
@@ -286,8 +286,7 @@ func NewObject(name string) *Object {
 }
 
 func (o *Object) SetRotation(r *geom.Quaternion) {
-	// RotationOrderYXZ?
-	o.Rotation = geom.NewEulerFromQuaternion(r, geom.RotationOrderZXY).Vector3.Scale(180 / math.Pi)
+	o.Rotation = geom.NewEulerFromQuaternion(r, geom.RotationOrderYXZ).Vector3.Scale(180 / math.Pi)
 }
 
 func (o *Object) GetRotation() *geom.Quaternion {
-- 
2.43.0


From 93352dc9f85d70d4b10735f1531b7fed47ad4f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:53 +0000
Subject: [PATCH 02/13] fix: mqo: world transforms inherit from the enclosing
 object

GetWorldTransforms popped its stack while the top was shallower than the
object, so children never inherited their parent's transform and siblings
were treated as nested.
---
 mqo/mqo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mqo/mqo.go b/mqo/mqo.go
index 3b7e4ae..5f9d69c 100644
--- a/mqo/mqo.go
+++ b/mqo/mqo.go
@@ -51,7 +51,7 @@ func (doc *Document) GetWorldTransforms() map[*Object]*Matrix4 {
 	dt := []*Matrix4{geom.NewMatrix4()}
 
 	for _, o := range doc.Objects {
-		for len(dd) > 1 && dd[len(dd)-1] <= o.Depth {
+		for len(dd) > 1 && dd[len(dd)-1] >= o.Depth {
 			dd = dd[:len(dd)-1]
 			dt = dt[:len(dt)-1]
 		}
-- 
2.43.0


From bbe94b20e8f1efd8a7c6793df9ebeff3829c5897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:17 +0000
Subject: [PATCH 03/13] fix: mmd: PMX joints refer to rigid bodies with the
 rigid body index width

---
 mmd/pmx_writer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmd/pmx_writer.go b/mmd/pmx_writer.go
index e7de800..ce88a15 100644
--- a/mmd/pmx_writer.go
+++ b/mmd/pmx_writer.go
@@ -368,8 +368,8 @@ func (w *PMXWriter) writeJoint(j *Joint) {
 	w.writeText(j.NameEn)
 	w.writeUint8(j.Type)
 
-	w.writeIndex(AttrBoneIndexSz, j.Body1)
-	w.writeIndex(AttrBoneIndexSz, j.Body2)
+	w.writeIndex(AttrRBIndexSz, j.Body1)
+	w.writeIndex(AttrRBIndexSz, j.Body2)
 
 	w.write(&j.Position)
 	w.write(&j.Rotation)
-- 
2.43.0


From 43d3b3318ba716b2bd930d981c6d32b11edd65c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:03 +0000
Subject: [PATCH 04/13] fix: mqo: skip material morphs whose target material is
 missing

---
 mqo/morph_plugin.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mqo/morph_plugin.go b/mqo/morph_plugin.go
index d601695..dece800 100644
--- a/mqo/morph_plugin.go
+++ b/mqo/morph_plugin.go
@@ -68,7 +68,7 @@ func (p *MorphPlugin) ApplyMaterialMorph(doc *Document, name string, value float
 	for _, m := range doc.Materials {
 		if strings.HasPrefix(m.Name, morphPrefix) {
 			t := matByID[m.Name[len(morphPrefix):]]
-			if m == nil {
+			if t == nil {
 				continue
 			}
 			t.Color = *t.Color.Scale(1 - value).Add(m.Color.Scale(value))
-- 
2.43.0


From bd969162eba5a49197eec320f4855593b89d3ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:07 +0000
Subject: [PATCH 05/13] fix: converter: weights added to a bone already
 weighting the MQO vertex are percentages

---
 converter/mmd2mqo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter/mmd2mqo.go b/converter/mmd2mqo.go
index d447620..d462a6c 100644
--- a/converter/mmd2mqo.go
+++ b/converter/mmd2mqo.go
@@ -288,7 +288,7 @@ func (c *mmdToMQO) Convert(pmx *mmd.Document) *mqo.Document {
 			for bi, b := range v.Bones {
 				if v.BoneWeights[bi] > 0 {
 					if c[b] != nil {
-						c[b].Weight += v.BoneWeights[bi]
+						c[b].Weight += 100 * v.BoneWeights[bi]
 						continue
 					}
 					c[b] = bones[b].SetVertexWeight(len(mq.Objects)+1, mqv+1, 100*v.BoneWeights[bi])
-- 
2.43.0


From 41b5471d66c9c1b668a5ba04c1317e06a4f4bf4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:08 +0000
Subject: [PATCH 06/13] fix: converter: MMD morphs of vertices without a face
 do not move vertex 0

---
 converter/mmd2mqo.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/converter/mmd2mqo.go b/converter/mmd2mqo.go
index d462a6c..f3044d4 100644
--- a/converter/mmd2mqo.go
+++ b/converter/mmd2mqo.go
@@ -307,7 +307,11 @@ func (c *mmdToMQO) Convert(pmx *mmd.Document) *mqo.Document {
 			o.Visible = false
 			morphTargets.Target = append(morphTargets.Target, &mqo.MorphTarget{Name: o.Name})
 			for _, mv := range morph.Vertex {
-				v := o.Vertexes[vmap[mv.Target]]
+				mqv, ok := vmap[mv.Target]
+				if !ok {
+					continue // not used by any face
+				}
+				v := o.Vertexes[mqv]
 				v.X += mv.Offset.X
 				v.Y += mv.Offset.Y
 				v.Z += mv.Offset.Z * -1
@@ -320,10 +324,11 @@ func (c *mmdToMQO) Convert(pmx *mmd.Document) *mqo.Document {
 			}
 
 			for _, mu := range morph.UV {
-				if mu.Target < 0 {
-					continue
+				mqv, ok := vmap[mu.Target]
+				if !ok {
+					continue // not used by any face
 				}
-				for _, fv := range vertToFV[vmap[mu.Target]] {
+				for _, fv := range vertToFV[mqv] {
 					uv := &o.Faces[fv[0]].UVs[fv[1]]
 					uv.X += mu.Value.X
 					uv.Y += mu.Value.Y
-- 
2.43.0


From 1c09b2f01c0ec073a53374712f86eee711893e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:09 +0000
Subject: [PATCH 07/13] fix: converter: rigid body sizes are not mirrored

---
 converter/mmd2mqo.go | 2 +-
 converter/mqo2mmd.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/converter/mmd2mqo.go b/converter/mmd2mqo.go
index f3044d4..21e39c7 100644
--- a/converter/mmd2mqo.go
+++ b/converter/mmd2mqo.go
@@ -377,7 +377,7 @@ func (c *mmdToMQO) Convert(pmx *mmd.Document) *mqo.Document {
 				Name: b.Name,
 				Shapes: []*mqo.PhysicsShape{{
 					Type:     shapeType,
-					Size:     mqo.Vector3XmlAttr(*c.convertVec3(&b.Size)),
+					Size:     mqo.Vector3XmlAttr(b.Size),
 					Position: mqo.Vector3XmlAttr(*c.convertVec3(&b.Position)),
 					Rotation: mqo.Vector3XmlAttr(b.Rotation),
 				}},
diff --git a/converter/mqo2mmd.go b/converter/mqo2mmd.go
index ec5a9ac..ae247cd 100644
--- a/converter/mqo2mmd.go
+++ b/converter/mqo2mmd.go
@@ -192,7 +192,7 @@ func (c *mqoToMMD) convertBody(b *mqo.PhysicsBody, boneIndexByID map[int]int) []
 			Name:  b.Name,
 			Shape: shapeType,
 
-			Size:           *c.convertVec3(shape.Size.Vec3()),
+			Size:           *shape.Size.Vec3().Scale(c.Scale),
 			Position:       *c.convertVec3(shape.Position.Vec3()),
 			Rotation:       mmd.Vector3(shape.Rotation),
 			Mass:           b.Mass,
-- 
2.43.0


From 7430de542236c8b8827dc09a44ae68996f3d1059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:10 +0000
Subject: [PATCH 08/13] fix: converter: MMD morph offsets include Z

---
 converter/mqo2mmd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter/mqo2mmd.go b/converter/mqo2mmd.go
index ae247cd..6d92f29 100644
--- a/converter/mqo2mmd.go
+++ b/converter/mqo2mmd.go
@@ -98,7 +98,7 @@ func (c *mqoToMMD) Convert(doc *mqo.Document) (*mmd.Document, error) {
 										p := c.convertVec3(target.Vertexes[v])
 										morphTargets[t.Name].Vertex = append(morphTargets[t.Name].Vertex, &mmd.MorphVertex{
 											Target: verts[i],
-											Offset: mmd.Vector3{X: p.X - vert.Pos.X, Y: p.Y - vert.Pos.Y},
+											Offset: mmd.Vector3{X: p.X - vert.Pos.X, Y: p.Y - vert.Pos.Y, Z: p.Z - vert.Pos.Z},
 										})
 									}
 								}
-- 
2.43.0


From 9fc5216fbd6b5c5ea9e864cbb0a27a81e2dd0735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:10 +0000
Subject: [PATCH 09/13] fix: converter: MMD normals are mirrored like the
 positions

---
 converter/mqo2mmd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter/mqo2mmd.go b/converter/mqo2mmd.go
index 6d92f29..856499d 100644
--- a/converter/mqo2mmd.go
+++ b/converter/mqo2mmd.go
@@ -87,7 +87,7 @@ func (c *mqoToMMD) Convert(doc *mqo.Document) (*mmd.Document, error) {
 						vert := &mmd.Vertex{
 							Pos:       *c.convertVec3(obj.Vertexes[v]),
 							UV:        mmd.Vector2{X: uv.X, Y: uv.Y},
-							Normal:    mmd.Vector3{X: normals[v].X, Y: normals[v].Y, Z: normals[v].Z},
+							Normal:    mmd.Vector3{X: normals[v].X, Y: normals[v].Y, Z: -normals[v].Z},
 							EdgeScale: 1,
 						}
 						dst.Vertexes = append(dst.Vertexes, vert)
-- 
2.43.0


From fd59c838f9aaedc4c2892d4c28db4ad3a0f6f411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:11 +0000
Subject: [PATCH 10/13] fix: converter: kinematic bodies follow their bone in
 MMD

---
 converter/mqo2mmd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter/mqo2mmd.go b/converter/mqo2mmd.go
index 856499d..4339d79 100644
--- a/converter/mqo2mmd.go
+++ b/converter/mqo2mmd.go
@@ -207,7 +207,7 @@ func (c *mqoToMMD) convertBody(b *mqo.PhysicsBody, boneIndexByID map[int]int) []
 		if i > 0 {
 			body.Name += "_" + fmt.Sprint(i)
 		}
-		if b.Kinematic {
+		if !b.Kinematic {
 			body.Mode = 1
 		}
 		bodies = append(bodies, body)
-- 
2.43.0


From 4642e53e72769f2ffa40822e10e77ff10d3026cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:12 +0000
Subject: [PATCH 11/13] fix: converter: MMD bodies without a bone are not
 attached to bone 0

---
 converter/mqo2mmd.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/converter/mqo2mmd.go b/converter/mqo2mmd.go
index 4339d79..2ac6f58 100644
--- a/converter/mqo2mmd.go
+++ b/converter/mqo2mmd.go
@@ -174,6 +174,10 @@ func (c *mqoToMMD) convertMaterial(m *mqo.Material, faceCount, texture int) *mmd
 }
 
 func (c *mqoToMMD) convertBody(b *mqo.PhysicsBody, boneIndexByID map[int]int) []*mmd.RigidBody {
+	bone, ok := boneIndexByID[b.TargetBoneID]
+	if !ok {
+		bone = -1
+	}
 	var bodies []*mmd.RigidBody
 	for i, shape := range b.Shapes {
 		var shapeType uint8 = 0
@@ -202,7 +206,7 @@ func (c *mqoToMMD) convertBody(b *mqo.PhysicsBody, boneIndexByID map[int]int) []
 			AngularDamping: b.AngularDamping,
 			Restitution:    b.Restitution,
 			Friction:       b.Friction,
-			Bone:           boneIndexByID[b.TargetBoneID],
+			Bone:           bone,
 		}
 		if i > 0 {
 			body.Name += "_" + fmt.Sprint(i)
-- 
2.43.0


From 3ded8540d5bdb671706848df775c9f4dcc98ea20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:13 +0000
Subject: [PATCH 12/13] fix: converter: morph targets refer to normals only
 when there are any

---
 converter/mqo2gltf.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index 89ffa8b..deec7dc 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -703,10 +703,13 @@ func (m *mqoToGltf) ConvertObject(obj *mqo.Object, bones []*mqo.Bone, boneIDToJo
 			v := morphObj.Vertexes[i]
 			mv = append(mv, [3]float32{v.X*scale - vertexes[i][0], v.Y*scale - vertexes[i][1], v.Z*scale - vertexes[i][2]})
 		}
-		targets = append(targets, map[string]uint32{
+		target := map[string]uint32{
 			"POSITION": modeler.WritePosition(m.Document, mv),
-			"NORMAL":   attributes["NORMAL"], // for UniVRM. TODO
-		})
+		}
+		if normal, ok := attributes["NORMAL"]; ok {
+			target["NORMAL"] = normal // for UniVRM. TODO
+		}
+		targets = append(targets, target)
 		targetNames = append(targetNames, morphObj.Name)
 	}
 
-- 
2.43.0


From 4d974b6c0519b5924ac6a09d940326e8700370cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:24 +0000
Subject: [PATCH 13/13] fix: converter: weights of vertices with more than four
 influences are renormalised once

---
 converter/mqo2gltf.go | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index deec7dc..e1b2d70 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -257,22 +257,20 @@ func (m *mqoToGltf) getWeights(bones []*mqo.Bone, obj *mqo.Object, boneIDToJoint
 				joints[v][jindex] = uint16(len(jointIds)) - 1
 				weights[v][jindex] = vw.Weight * 0.01
 			}
-			for _, vw := range bw.Vertexes {
-				v := obj.GetVertexIndexByID(vw.VertexID)
-				if njoint[v] > 4 {
-					log.Println("WWARNING: njoint > 4. V:", vw.VertexID, " O:", obj.Name)
-					var sum float32 = 0
-					for _, w := range weights[v] {
-						sum += w
-					}
-					if sum > 0 {
-						for i := range weights[v] {
-							weights[v][i] /= sum
-						}
-					}
+		}
+	}
+	for v, n := range njoint {
+		if n > 4 {
+			log.Println("WWARNING: njoint > 4. V:", v, " O:", obj.Name)
+			var sum float32 = 0
+			for _, w := range weights[v] {
+				sum += w
+			}
+			if sum > 0 {
+				for i := range weights[v] {
+					weights[v][i] /= sum
 				}
 			}
-
 		}
 	}
 	return jointIds, joints, weights
-- 
2.43.0

