package simrt

import "fmt"

// text is a rendering of a map key that does not depend on addresses.
func text(a any) string { return fmt.Sprintf("%T %+v", a, a) }

func lessAny(a, b any) bool { return text(a) < text(b) }
