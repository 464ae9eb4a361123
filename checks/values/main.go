// Checks of the value types: V01 V02 V03 I01 T01 M01 E01 Q05 I02.
package main

import (
	"os"
	"time"

	"verif.local/vlib/mc"
)

func main() {
	prop := os.Args[1]
	// nothing may depend on the zone the program runs in
	time.Local = time.FixedZone("here", 5*3600+30*60)
	f := map[string]func(r *mc.Run){
		"V01": v01, "V02": v02, "V03": v03, "I01": i01, "T01": t01, "M01": m01, "E01": e01, "Q05": q05, "I02": i02,
	}[prop]
	mc.Main(prop, "model_checking", f)
}
