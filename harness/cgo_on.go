//go:build cgo

package main

const cgoEnabled = true
