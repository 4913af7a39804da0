//go:build vsim_nolib

package main

const hasLibrary = false

func (c *Case) libMain() { panic("harness: no library") }
