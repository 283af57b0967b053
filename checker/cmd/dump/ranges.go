package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"orchverif/eng"
)

func ranges(w *eng.World) {
	for _, f := range w.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if r, ok := in.(*ssa.Range); ok {
					if _, ok := r.X.Type().Underlying().(*types.Map); ok {
						fmt.Println(w.At(in), eng.Name(f))
					}
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					switch eng.Key(ci) {
					case "maps.Keys", "maps.Values", "maps.All", "sync.Map.Range", "reflect.Value.MapKeys", "reflect.Value.MapRange":
						fmt.Println(w.At(in), eng.Name(f), eng.Key(ci))
					}
				}
			}
		}
	}
}
