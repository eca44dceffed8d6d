//go:build !cgo

package main

const cgoEnabled = false
