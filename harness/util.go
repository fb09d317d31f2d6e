package main

import "sort"

func sortInts(x []int) { sort.Ints(x) }
