//go:build race

package sym

const raceBuild = true
