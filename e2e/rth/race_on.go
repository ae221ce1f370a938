//go:build race

package rth

import (
	"fmt"
	"os"
	"runtime"
	"strings"
)

const raceBuild = true

func raceErrors() int { return runtime.RaceErrors() }

func raceReport() string {
	b, _ := os.ReadFile(fmt.Sprintf("%s.%d", os.Getenv("VP_RACELOG"), os.Getpid()))
	s := string(b)
	if i := strings.LastIndex(s, "WARNING: DATA RACE"); i >= 0 {
		s = s[i:]
	}
	if len(s) > 2500 {
		s = s[:2500]
	}
	return s
}
