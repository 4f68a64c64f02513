module github.com/mlange-42/bbn/verif

go 1.23.0
