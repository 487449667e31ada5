//go:build !race

package main

func raceOff() {}
func raceOn()  {}
