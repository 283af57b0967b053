package eng

import "go/types"

// Deref removes one pointer level.
func Deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// NamedOf returns the named type behind t (through one pointer).
func NamedOf(t types.Type) *types.Named {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if a, ok := t.(*types.Alias); ok {
		t = types.Unalias(a)
	}
	n, _ := t.(*types.Named)
	return n
}

// TypeKey renders "pkg.Name" with the module prefix stripped.
func TypeKey(t types.Type) string {
	n := NamedOf(t)
	if n == nil {
		return t.String()
	}
	if n.Obj().Pkg() == nil {
		return n.Obj().Name()
	}
	return trimMod(n.Obj().Pkg().Path() + "." + n.Obj().Name())
}

var fieldOwner = map[*types.Var]string{}

func ownFields(n *types.Named) {
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if _, dup := fieldOwner[f]; !dup {
			fieldOwner[f] = TypeKey(n)
		}
	}
}

// TypeKeyOfField renders the key of the module's struct type declaring the field.
func TypeKeyOfField(f *types.Var) string { return fieldOwner[f.Origin()] }
