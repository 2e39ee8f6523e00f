// Package vharness holds the property harnesses. Each file registers its own.
package vharness

// All is the table of harnesses.
var All = map[string]func(){}

func add(name string, f func()) { All[name] = f }
