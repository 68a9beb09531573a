SPECIFICATION Spec
INVARIANT Mesh
