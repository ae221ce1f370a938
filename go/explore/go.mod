module verif.local/explore

go 1.20
