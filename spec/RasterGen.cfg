SPECIFICATION Spec
INVARIANT EmitShape
