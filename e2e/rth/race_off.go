//go:build !race

package rth

const raceBuild = false

func raceErrors() int    { return 0 }
func raceReport() string { return "" }
