//go:build !mapctl

package mapctl

// Control returns nil: the runtime is not altered.
func Control() *State { return nil }
