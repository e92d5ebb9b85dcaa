module verif/genshim

go 1.23
