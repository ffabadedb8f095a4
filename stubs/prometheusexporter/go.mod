module github.com/open-telemetry/opentelemetry-collector-contrib/exporter/prometheusexporter

go 1.23.0
