module verif/instrument

go 1.23.0
