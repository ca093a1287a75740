package main

type polyEntry struct{ tag, typ string }

var polyTables = map[string][]polyEntry{}
