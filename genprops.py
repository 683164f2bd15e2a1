#!/usr/bin/env python3
# Source of /verif/properties.jsonl (kept in step by hand; run to regenerate).
import json
P=[]
def p(id,title,statement,text,why,files,mech,over=("inputs",),observe=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=list(over),text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   observe_at=observe or [])))
p("C01","Transform composition: product, application and constructors agree",
 "For every pair of affine 4x4 transforms and every point, applying the product of two transforms equals applying the right one and then the left one; the identity, translation, scale and rotation constructors act on every point exactly as their names say, and a translate-rotate-scale transform scales first, then rotates, then translates. Products, sums, differences and scalings of matrices are the entrywise/row-by-column mathematical ones, and none of these operations alters its operands.",
 "all 4x4 real matrices (affine where points are involved), all points, all unit quaternions",
 "the tests multiply a couple of fixed matrices; the identity is over 16+16+3 real variables",
 ["geom/matrix4.go","geom/vector3.go"],
 [("Matrix4.Mul / ApplyTo / Add / Sub / Scale","geom/matrix4.go, geom/vector3.go"),("NewMatrix4, NewTranslateMatrix4, NewScaleMatrix4, NewTRSMatrix4, NewRotationMatrix4FromQuaternion","geom/matrix4.go")])
p("C02","Matrix inverse, determinant and transpose are the mathematical ones",
 "For every 4x4 matrix with non-zero determinant, the product of the matrix and its computed inverse, in either order, is the identity, and for a singular matrix the computed inverse is the all-zero matrix. The determinant is the mathematical determinant (it is multiplicative, is unchanged by transposition and is the product of the diagonal for scale matrices), and transposing swaps rows and columns.",
 "all 4x4 real matrices",
 "the test inverts one matrix; a wrong cofactor shows only for matrices with non-zero entries in particular positions",
 ["geom/matrix4.go"],
 [("Matrix4.Inverse","geom/matrix4.go"),("Matrix4.Det","geom/matrix4.go"),("Matrix4.Transposed","geom/matrix4.go")])
p("C03","Quaternions represent rotations consistently",
 "For all unit quaternions, rotating a point by a quaternion equals applying the rotation matrix made from that quaternion, the product of two quaternions rotates like rotating by the right one and then the left one, the inverse quaternion undoes the rotation, and rotation preserves lengths and dot products. Quaternion multiplication is associative, has (0,0,0,1) as unit and multiplies norms.",
 "all quaternions (unit ones where rotations are involved), all points",
 "the tests use axis rotations by right angles of single points",
 ["geom/quaternion.go","geom/matrix4.go"],
 [("Vector4.Mul, Inverse, ApplyTo","geom/quaternion.go"),("NewRotationMatrix4FromQuaternion","geom/matrix4.go")])
p("C04","Euler angles convert to the rotation their order names",
 "For every triple of angles and each of the four supported orders, the quaternion made from the angles is a unit quaternion equal to the product of the three axis rotations in the order the name spells. For every rotation matrix away from gimbal lock, the Euler angles extracted for an order convert back to the same rotation, and extraction keeps the requested order.",
 "all angle triples, all rotation matrices outside gimbal lock, all four orders",
 "the test tries one angle triple per order",
 ["geom/euler.go"],
 [("EulerAngles.ToQuaternion","geom/euler.go"),("NewEulerFromMatrix4, NewEulerFromQuaternion","geom/euler.go")])
p("C05","Decomposing a transform recovers translation, rotation and scale",
 "For every translation, every unit quaternion and every scale with positive Y and Z and non-zero X, decomposing the translate-rotate-scale transform returns exactly that translation and scale, and a rotation representing the same rotation; so recomposing the three parts gives the original matrix. Decomposition does not alter the matrix.",
 "all translations, unit quaternions and (possibly mirrored) non-degenerate scales; all four numeric branches of the rotation extraction",
 "the test decomposes a few matrices and reaches one or two of the four branches",
 ["geom/matrix4.go"],
 [("Matrix4.Decompose","geom/matrix4.go"),("NewTRSMatrix4","geom/matrix4.go")])
p("C06","Polygon triangulation yields n-2 valid triangles for every polygon",
 "For every polygon of n corners, triangulation returns exactly n-2 triangles when n is at least 3 and none otherwise, every triangle names three distinct corners of the polygon by valid index, and lists them in the cyclic order in which the polygon does (so the winding is kept). It does not panic on any input, including self-intersecting, concave and degenerate polygons, and never alters the input.",
 "all lists of points (any length, any coordinates)",
 "the tests triangulate four fixed polygons; ear selection depends on all coordinates",
 ["geom/utils.go"],
 [("Triangulate: ear clipping with fan fallback","geom/utils.go"),("IsInTriangle","geom/utils.go")])
p("C07","Vector arithmetic and normalisation",
 "Vector addition, subtraction, scaling, dot, cross, Hadamard product and length of 2-, 3- and 4-component vectors are the mathematical operations and leave their operands unchanged. Normalising a non-zero vector keeps its direction and yields length one; normalising a zero vector yields the documented default unit vector; conversions to and from arrays and slices keep component order.",
 "all vectors","tests use a handful of integer vectors",
 ["geom/vector2.go","geom/vector3.go","geom/quaternion.go","geom/utils.go"],
 [("Vector2/Vector3/Vector4 methods","geom/vector2.go, geom/vector3.go, geom/quaternion.go"),("Abs, Min, Max","geom/utils.go")])
p("C09","Transforming a model moves each vertex, normal, bone and physics shape once",
 "For every transform and every object, applying the transform moves each vertex to its image, keeps the number of vertices and faces, composes the object's internal transform with it, and moves each present face normal by the inverse-transpose of the linear part, so normals stay perpendicular to the transformed surface; absent normals stay absent. Bone positions move to their image and keep their list, physics shapes move to their image, are resized by the absolute scale of the transform and keep their rotation. Transforming a document does this once for each object, bone and shape and prepends the transform to each object's local transform.",
 "all objects with unshared normal lists, all transforms, all bone and body lists",
 "no test transforms a document; the claim is about every element of lists of any length",
 ["mqo/utils.go","mqo/bone_plugin.go","mqo/physics_plugin.go"],
 [("Object.ApplyTransform, Document.ApplyTransform","mqo/utils.go"),("BonePlugin.ApplyTransform","mqo/bone_plugin.go"),("PhysicsPlugin.ApplyTransform","mqo/physics_plugin.go")])
p("C10","Names are made unique and identifiers resolve to the right element",
 "After name fixing, any two objects of a document have different names and any two materials have different names; the first object and material keep their names, and objects whose names already differ keep them. Assigning object ids keeps every id that is set and gives every other object its 1-based position. Looking an object up by id returns the first object carrying that id and nothing when there is none; a vertex id resolves through the id table when it is listed there, otherwise as a 1-based position, and to -1 beyond the vertex count.",
 "all documents, any number of objects and materials, any names (also names that look like generated ones)",
 "no test calls name fixing; collisions with names generated earlier need particular combinations of names",
 ["mqo/mqo.go"],
 [("Document.FixNames","mqo/mqo.go"),("Document.FixObjectID, GetObjectByID","mqo/mqo.go"),("Object.GetVertexIndexByID","mqo/mqo.go")])
p("C13","Object transforms round-trip and world transforms follow the hierarchy",
 "For every unit quaternion away from gimbal lock, setting an object's rotation and reading it back yields the same rotation. For every translation, such rotation and positive scale, setting an object's local transform from the composed matrix and reading it back yields the same matrix. The world transform of each object is the world transform of its parent (the nearest preceding object of smaller depth) times its own local transform, and its own local transform when it has no parent.",
 "all unit quaternions outside gimbal lock, all translations, all positive scales; all object lists with any depths",
 "no test sets a rotation on an object or computes a world transform; agreement of the two angle conventions shows only for rotations about two or more axes",
 ["mqo/mqo.go","geom/euler.go","geom/matrix4.go"],
 [("Object.SetRotation, GetRotation","mqo/mqo.go"),("Object.SetLocalTransform, GetLocalTransform","mqo/mqo.go"),("Document.GetWorldTransforms","mqo/mqo.go")])
p("C08","Triangulating an object keeps its surface and corner attributes",
 "Triangulating an object replaces every face of n corners by n-2 triangles (none when n is below 3) made of corners of that face in its own cyclic order, keeps faces that already are triangles as they are, keeps the order of faces, and gives every new triangle the material of its face and at each corner the texture coordinate and the normal the face has there. Afterwards every face has exactly three corners, all of them vertices of the object; the vertices are untouched.",
 "all objects with faces of any size, with or without texture coordinates and normals",
 "no test triangulates an object; mixing corner positions with vertex numbers shows only for faces whose corners are numbered differently and which carry attributes",
 ["mqo/utils.go","geom/utils.go"],
 [("Object.Triangulate","mqo/utils.go"),("Triangulate","geom/utils.go")])
p("C11","Morphs blend the base shape towards the target",
 "Applying a vertex morph with a weight moves every vertex of the base object by weight times the difference between the target's vertex and the base's original one, reports success, and leaves the number of vertices, the chosen target and all objects outside the morph list alone; other targets of the list move along with the base. When base or target is missing or they differ in vertex count nothing changes and failure is reported. A material morph blends the colour of the material it names linearly by the weight and does nothing for a material that is missing.",
 "all documents, morph lists, weights and vertex counts",
 "no test applies a morph; order of updates and sharing matter only for particular list orders",
 ["mqo/morph_plugin.go"],
 [("MorphTargetList.Apply","mqo/morph_plugin.go"),("MorphPlugin.Apply, ApplyMaterialMorph","mqo/morph_plugin.go")])
p("C12","Mesh editing: flipping, cloning and weighting keep elements together",
 "Flipping a face reverses its corner order and reverses texture coordinates and normals with it, so every corner keeps its own attributes, for any number of corners. Cloning an object yields an object with equal vertices, faces, material numbers, texture coordinates and attributes in vertex and face storage of its own, and leaves the original unchanged. Setting a bone's vertex weight records it in the bone's entry for that object (creating the entry once) and leaves all other entries and weights alone.",
 "all faces, objects and bones of any size",
 "no test flips or clones; odd and even corner counts and shared storage need many sizes",
 ["mqo/mqo.go","mqo/bone_plugin.go"],
 [("Face.Flip, Object.Clone","mqo/mqo.go"),("Bone.SetVertexWeight","mqo/bone_plugin.go")])
p("C14","Normals: smooth normals are unit length and completion fills every corner",
 "The smooth normals of an object are one unit vector per vertex: the normalised sum, over all face corners at the vertex, of the corner's given normal or, where there is none, of the unit normal of the corner. Completing normals gives every face exactly one normal per corner, leaves faces that already had one per corner untouched, and uses unit smooth normals elsewhere; vertices and faces are not changed otherwise.",
 "all meshes of any size, with complete, partial or missing normals",
 "no test computes normals",
 ["mqo/utils.go","geom/vector3.go"],
 [("Object.GetSmoothNormals, FixhNormals","mqo/utils.go"),("Vector3.Normalize","geom/vector3.go")])
p("C15","A PMX model written and read back is the same model",
 "For every PMX model and every combination of index widths, text encodings and additional-vector count that can represent it, writing the model and reading the result back yields the same header, vertices with all four weighting schemes, faces, textures, materials, bones with all optional parts and IK links, morphs of every kind, rigid bodies and joints (display groups, which the model does not represent, are written empty): the reader consumes exactly what the writer produced, field for field, in the same order and width.",
 "all models; index widths 1, 2 and 4 for each of the six index kinds independently; both text encodings; all bone flag combinations; all morph types",
 "the tests parse one sample and write one; a width or flag mix-up shows only for other widths and flag combinations",
 ["mmd/pmx_parser.go","mmd/pmx_writer.go","mmd/binary_parser.go"],
 [("WritePMX / PMXWriter","mmd/pmx_writer.go"),("PMXParser","mmd/pmx_parser.go")])
p("C16","Converting an MMD model to MQO keeps the surface, weights and morphs",
 "Converting a PMX model to a Metasequoia document yields the same model mirrored in Z: one triangle per face of the model, with that face's material and, at each corner, the position and normal of its vertex mirrored in Z and its texture coordinate; corners sharing a vertex within an object share it in the result, and there are no vertices without a face. Materials keep number, order, name, colour, power and texture (material morphs append generated materials after them); bones keep number, order, name and mirrored position and hang under the same parent; every vertex has, for each bone, exactly one weight, 100 times the sum of its weights for that bone. A vertex or UV morph becomes a hidden object equal to its base except that exactly the vertices (texture coordinates) it names are displaced by its mirrored offset, and rigid bodies keep shape, size, attributes, mirrored position and bone; an IK bone's chain is recorded under its name at the bone it moves. Object ids are the 1-based positions.",
 "all well-formed models; any number of materials, faces, bones, weights and morphs, vertices used by no face or by several materials",
 "no test converts a model whose vertices are shared, split between objects, unused or weighted twice by one bone",
 ["converter/mmd2mqo.go"],
 [("mmdToMQO.Convert: object splitting, weights, morphs","converter/mmd2mqo.go"),("convertVec3, convertMaterial, convertBones, convertFaces","converter/mmd2mqo.go")])
p("C17","Converting an MQO document to MMD keeps the surface, weights and morphs",
 "Converting a document to a PMX model scales it and mirrors it in Z and changes nothing else: per material and in material order, the faces are the fans of the faces of the visible objects with that material that are not morph targets; each corner refers to a vertex with the scaled and mirrored position of its vertex, its texture coordinate and its mirrored smooth normal, and corners of one object and material with the same vertex and texture coordinate share one; face counts per material add up to all faces. Every vertex carries the first four weights the bones give it, in bone order, as fractions of 100. Bones keep order, name, scaled mirrored position and parent, and a bone points to a child as its tail exactly when it has one. Each morph target becomes a vertex morph whose offset at every vertex of its base is the scaled mirrored difference between target and base. Every shape of a physics body becomes one rigid body with scaled size, mirrored position and the attributes, group, mask and kinematic mode of the body, attached to the body's bone or to none. The document itself is not altered apart from the ids given to objects.",
 "all documents with any number of objects, faces of any size, bones with any ids and order, weights, morph lists and bodies",
 "the tests convert no document with morphs, physics, more than one material or shared vertices",
 ["converter/mqo2mmd.go"],
 [("mqoToMMD.Convert, setWeights","converter/mqo2mmd.go"),("convertVec3, convertBone, convertMaterial, convertBody","converter/mqo2mmd.go")])
p("C18","Converting an MQO document to glTF yields a consistent scene of the same model",
 "Converting a document to glTF yields one node per exported object followed by one node per bone, arranged like the object depths and bone parents, each reachable exactly once from the scene; bone nodes stand, accumulated over their ancestors, at the scaled bone position, and object nodes are untransformed. Each visible object becomes a mesh whose triangles per material are its triangulated faces with their corners reversed, whose vertices are at the scaled positions with their texture coordinates and (when shaded) normals; all attributes, morph targets and skin data of a primitive have one entry per vertex, also for vertices duplicated because of texture coordinates (corners with the same vertex and texture coordinate share one), and every index, joint and accessor reference is valid. Skinned vertices carry the weight of each influencing bone as a fraction of 100 (when there are more than four, the strongest four in proportion, summing to one), joints refer to bone nodes, and bind matrices are the translations that undo the bone positions. Morph targets hold the scaled displacement of every vertex; a target with another number of vertices is left out. With physics export each bone node carries the shapes of its bodies, placed relative to it. Only materials that are used and not marked ignored are exported, in order, with name and colour; emission stays within range with its hue.",
 "all documents with any number of objects, hierarchy depths that grow by at most one level per object, materials, bones, weights and morph targets; without shared-geometry reuse, textures or lights",
 "the test converts one file and checks that no error is returned",
 ["converter/mqo2gltf.go"],
 [("mqoToGltf.Convert, ConvertObject","converter/mqo2gltf.go"),("addBoneNodes, getWeights, addSkin, addMatrices, convertMaterial, addPhysicsBody","converter/mqo2gltf.go")])
open('/verif/properties.jsonl','w').write('\n'.join(json.dumps(x) for x in P)+'\n')
