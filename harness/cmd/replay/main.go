// Command replay runs one harness function natively on a model file.
package main

import (
	"fmt"
	"os"

	"verif/harness/h"
	"verif/harness/v"
)

func main() {
	fn, err := v.Load(os.Args[1])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(7)
	}
	f := h.All[fn]
	if f == nil {
		fmt.Fprintln(os.Stderr, "no harness function", fn)
		os.Exit(7)
	}
	f()
}
