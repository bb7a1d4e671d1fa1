//go:build race

package main

const vsimRace = true
