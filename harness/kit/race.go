//go:build race

package kit

const raceBuild = true
