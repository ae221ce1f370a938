module verif.local/vo

go 1.18
