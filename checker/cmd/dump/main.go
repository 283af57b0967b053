// Command dump prints the SSA form of a function (development aid).
package main

import (
	"os"

	"orchverif/eng"
)

func main() {
	w, err := eng.Load("/repo", "linux")
	if err != nil {
		panic(err)
	}
	if os.Args[1] == "ranges" {
		ranges(w)
		return
	}
	f := w.Func(os.Args[1], os.Args[2])
	for _, g := range eng.WithAnon(f) {
		g.WriteTo(os.Stdout)
	}
}
