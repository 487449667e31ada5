module verif

go 1.24
