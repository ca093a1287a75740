package main

import "go/types"

import "strconv"

func itoa(i int64) string { return strconv.FormatInt(i, 10) }

var errType = types.Universe.Lookup("error").Type()
