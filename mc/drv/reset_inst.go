//go:build vsinst

package main

import "github.com/forsyth/jsonpath/vsall"

const instrumented = true

func reset() { vsall.Reset() }
