//go:build race

package harness

const raceBuild = true
