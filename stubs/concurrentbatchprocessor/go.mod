module github.com/open-telemetry/otel-arrow/collector/processor/concurrentbatchprocessor

go 1.23.0
