package main

// polyDecide tries to prove that nc is inconsistent with the path condition
// by integer reasoning. Reports true when proved.
func (e *Engine) polyDecide(st *State, nc *Term) bool { return false }
