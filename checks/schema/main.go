// Checks of the schema package: C01 C02 C03, and of the program: A01.
package main

import (
	"os"

	"verif.local/vlib/mc"
)

func main() {
	f := map[string]func(r *mc.Run){"C01": c01, "C02": c02, "C03": c03, "A01": a01}
	mc.Main(os.Args[1], "model_checking", f[os.Args[1]])
}
