package pvm

import "sort"

func sortStrings(s []string) { sort.Strings(s) }
