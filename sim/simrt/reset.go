package simrt

var resets []func()

// OnReset registers what gives the variables of an instrumented package their
// initial values.
func OnReset(f func()) { resets = append(resets, f) }

// ResetProcess makes the instrumented packages what they are in a new process.
func ResetProcess() {
	for _, f := range resets {
		f()
	}
}

// Zero gives a variable its zero value.
func Zero[T any](p *T) {
	var z T
	*p = z
}
