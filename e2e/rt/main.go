package main

import (
	_ "verifrt/ginit"

	"verif.local/rth"
)

func main() { rth.Main() }
