// Package models holds Go replacements for library functions that the
// symbolic engine does not interpret itself.  They are never used by the
// replay binary, which runs the real ones.
package models

// model: errors.Is
func ErrorsIs(err, target error) bool {
	if err == nil || target == nil {
		return err == target
	}
	return is(err, target)
}

func is(err, target error) bool {
	for {
		if err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if e != nil && is(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}
