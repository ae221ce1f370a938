module verif.local/rth

go 1.20
