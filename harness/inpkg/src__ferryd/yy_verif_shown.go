package main

import (
	"github.com/getsolus/ferryd/src/ferryctl/cmd"
	"github.com/getsolus/ferryd/src/vharness"
)

func init() {
	vharness.Command = func(args []string) {
		cmd.RootCmd.SetArgs(args)
		cmd.RootCmd.Execute()
	}
}

func HShown() { vharness.HShown() }
