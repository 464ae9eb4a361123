module verif.local/vlib

go 1.26.1
