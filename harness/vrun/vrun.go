// Package vrun runs one harness natively with recorded values.
package vrun

import (
	"fmt"
	"io"
	"os"
	"runtime/debug"

	"github.com/getsolus/ferryd/src/vharness/sym"
	log "github.com/sirupsen/logrus"
)

// Maybe runs the harness named by VREPLAY_HARNESS, if any, and exits.
func Maybe(all map[string]func()) {
	n := os.Getenv("VREPLAY_HARNESS")
	if n == "" || sym.Symbolic() || all[n] == nil {
		return
	}
	os.Exit(run(all[n], os.Getenv("VREPLAY_FILE")))
}

func run(f func(), file string) (code int) {
	if f == nil {
		fmt.Println("NO-HARNESS")
		return 9
	}
	log.SetOutput(io.Discard)
	if err := sym.Load(file); err != nil {
		fmt.Println("LOAD", err)
		return 9
	}
	defer sym.Cleanup()
	defer func() {
		for _, o := range sym.Observations() {
			fmt.Println("OBS", o)
		}
		switch r := recover().(type) {
		case nil:
			fmt.Println("OK")
		case sym.Failure:
			fmt.Println("FAIL", r.Msg)
			code = 3
		case sym.Infeasible:
			fmt.Println("INFEASIBLE", r.Msg)
			code = 4
		default:
			fmt.Printf("PANIC %v\n", r)
			fmt.Printf("%s\n", debug.Stack())
			code = 5
		}
	}()
	f()
	return 0
}
