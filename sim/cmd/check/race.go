package main

// Properties whose worker is built with the race detector.
var raceProps = map[string]bool{"C01": true, "C02": true, "C18": true, "C19": true}

func isRace(id string) bool { return raceProps[id] }
