// Package envconfig stands in for the reader of environment variables: a harness
// provides the values that it would have read.
package envconfig

import "context"

type Mutator interface{ verif() }

var Hook func(any) error

func Process(_ context.Context, i any, _ ...Mutator) error { return Hook(i) }
