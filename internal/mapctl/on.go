//go:build mapctl

package mapctl

import _ "unsafe"

//go:linkname state runtime.mcState
var state State

// Control returns the state shared with the runtime.
func Control() *State { return &state }
