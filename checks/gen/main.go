// Checks of the generator of models and the commands that print a schema: G01 G02.
package main

import (
	"os"

	"verif.local/vlib/mc"
)

func main() {
	if os.Args[1] == "generate" {
		generateOne(os.Args[2], os.Args[3])
		return
	}
	f := map[string]func(r *mc.Run){"G01": g01, "G02": g02}
	mc.Main(os.Args[1], "model_checking", f[os.Args[1]])
}
