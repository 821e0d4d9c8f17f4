//go:build verifcov

package main

import (
	"sort"

	ch "github.com/AfterShip/clickhouse-sql-parser/parser"
)

const covBuild = true

var covSlices [][]uint32
var covFiles []string

func init() {
	m := ch.VerifCounters()
	for f := range m {
		covFiles = append(covFiles, f)
	}
	sort.Strings(covFiles)
	for _, f := range covFiles {
		covSlices = append(covSlices, m[f])
	}
}
