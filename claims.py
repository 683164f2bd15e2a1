
_B="; the following functions are only checked on generated inputs (bounded, not counted as proved): "
_D="all obligations generated from /repo's current source are discharged; floats as reals, int as mathematical integers, listed external models trusted; specifications are also replayed on the compiled code"
NOTE['C16']="proved: coordinate, material and bone conversion and the per-object face conversion"+_B+"the assembly in mmdToMQO.Convert (object splitting, weights, morphs, physics), run on tens of thousands of small generated models. "+_D
NOTE['C17']="proved: coordinate, bone, material and rigid-body conversion, the shape of every vertex's weight list, and the coordinate round trip"+_B+"the assembly in mqoToMMD.Convert (vertices, faces, the values of weights, morphs), run on tens of thousands of small generated documents. "+_D
NOTE['C18']="proved: bone nodes, joint and weight table sizes and joint validity, physics bodies, untextured materials"+_B+"the assembly in mqoToGltf.Convert, ConvertObject and addSkin, whose result is read back with the glTF library, on tens of thousands of small generated documents. "+_D
for _i in ('C16','C17','C18'): LEVEL[_i]='other'
for _i,_t in dict(C08="the count and attributes of all triangles after Object.Triangulate together",C09="Document.ApplyTransform as a whole",C11="MorphPlugin.Apply and ApplyMaterialMorph over whole documents",C12="histories of several SetVertexWeight calls",C13="GetWorldTransforms over whole hierarchies",C14="the value of smooth normals as a sum over all corners",C15="whole files (ParsePMX of WritePMX), as opposed to their parts").items():
    NOTE[_i]=_D+". In addition, bounded (generated inputs, not counted as proved): "+_t
