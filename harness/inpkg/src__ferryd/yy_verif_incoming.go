package main

import "github.com/getsolus/ferryd/src/vharness"

func HIncoming()     { vharness.HIncoming() }
func HShutdown()     { vharness.HShutdown() }
func HShutdownBusy() { vharness.HShutdownBusy() }
func HBind()         { vharness.HBind() }
