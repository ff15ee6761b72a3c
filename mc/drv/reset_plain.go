//go:build !vsinst

package main

const instrumented = false

func reset() {}
