package net

// SimListen, if set, takes the place of Listen while a simulated run is on.
var SimListen func(network, address string) (Listener, error)
