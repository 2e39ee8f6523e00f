package main

import (
	"net/http"

	"github.com/getsolus/ferryd/src/vharness"
)

func init() {
	vharness.Router = func(d vharness.Daemon) http.Handler { return d.(*Server).srv.Handler }
}

func HQueued() { vharness.HQueued() }

func HTold() { vharness.HTold() }
