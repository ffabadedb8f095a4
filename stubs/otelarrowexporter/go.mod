module github.com/open-telemetry/opentelemetry-collector-contrib/exporter/otelarrowexporter

go 1.23.0
