package main

// registry is replaced by the engine (build overlay) with the harnesses found in package h.
var registry = map[string]func(){}
