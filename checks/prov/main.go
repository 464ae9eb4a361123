// Checks of the provider and the list queries: P01 P02 Q01 Q02.
package main

import (
	"os"

	"verif.local/vlib/mc"
)

func main() {
	f := map[string]func(r *mc.Run){"P01": p01, "P02": p02, "Q01": q01, "Q02": q02}
	level := map[string]string{"P01": "model_checking", "P02": "model_checking", "Q01": "fault_enumeration", "Q02": "model_checking"}
	id := os.Args[1]
	mc.Main(id, level[id], f[id])
}
