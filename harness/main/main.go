// Command vreplay runs one harness natively with recorded values.
package main

import (
	"fmt"
	"os"

	"github.com/getsolus/ferryd/src/vharness"
	"github.com/getsolus/ferryd/src/vharness/vrun"
)

func main() {
	vrun.Maybe(vharness.All)
	fmt.Println("NO-HARNESS")
	os.Exit(9)
}
