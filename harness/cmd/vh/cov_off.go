//go:build !verifcov

package main

const covBuild = false

var covSlices [][]uint32
var covFiles []string
