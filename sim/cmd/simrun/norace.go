//go:build !race

package main

func setupRace() {}
