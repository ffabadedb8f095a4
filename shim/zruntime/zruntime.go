package zruntime

import "github.com/lightstep/otel-launcher-go/zzverif/rt"

func Gosched() { rt.Gosched() }
