module verif.local/sim

go 1.23.0
