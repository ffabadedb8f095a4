package main

import "go.opentelemetry.io/otel/attribute"

type attributeKey = attribute.Key

func kv(k, v string) attribute.KeyValue { return attribute.String(k, v) }
