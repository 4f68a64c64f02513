package main

import "github.com/mlange-42/bbn/internal/verifrt"

func instrumented() bool { return verifrt.Instrumented }

// setOrder selects the map iteration order: 0 ascending, 1 descending.
func setOrder(o int) {
	if o == 0 {
		verifrt.Choose = nil
		return
	}
	verifrt.Choose = func(n int) []int {
		p := make([]int, n)
		for i := range p {
			p[i] = n - 1 - i
		}
		return p
	}
}
