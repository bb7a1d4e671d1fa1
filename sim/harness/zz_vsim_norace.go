//go:build !race

package main

const vsimRace = false
