package main

import (
	"os"

	"verif.local/vlib/mc"
	"verif.local/vlib/vsync"

	"github.com/effective-security/xdb/xsql"
)

func main() {
	id := os.Args[1]
	f := map[string]func(r *mc.Run){"S01": s01, "S02": s02, "S03": s03, "S04": s04, "S05": s05, "S06": s06}[id]
	mc.Main(id, map[string]string{"S06": "fault_enumeration"}[id]+map[bool]string{true: "", false: "model_checking"}[id == "S06"], f)
}

// fresh brings the process to the state it starts in.
func fresh() {
	vsync.PoolPolicy = nil
	vsync.ResetPools()
	vsync.ResetMaps()
	for _, d := range dialects {
		d.d.UseNewLines(true)
	}
	xsql.SetDialect(xsql.NoDialect)
}
