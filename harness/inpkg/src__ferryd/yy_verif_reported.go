package main

import "github.com/getsolus/ferryd/src/vharness"

func HReported() { vharness.HReported() }
