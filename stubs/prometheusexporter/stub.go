// Package prometheusexporter stands in for the collector's exporter: the same
// configuration and factory, but every call is handed to a Probe.
package prometheusexporter

import (
	"context"
	"time"

	"github.com/open-telemetry/opentelemetry-collector-contrib/pkg/resourcetotelemetry"
	"go.opentelemetry.io/collector/component"
	"go.opentelemetry.io/collector/config/confighttp"
	"go.opentelemetry.io/collector/consumer"
	"go.opentelemetry.io/collector/exporter"
	"go.opentelemetry.io/collector/pdata/pmetric"
)

type Config struct {
	confighttp.ServerConfig     `mapstructure:",squash"`
	Namespace                   string                       `mapstructure:"namespace"`
	ConstLabels                 map[string]string            `mapstructure:"const_labels"`
	SendTimestamps              bool                         `mapstructure:"send_timestamps"`
	MetricExpiration            time.Duration                `mapstructure:"metric_expiration"`
	ResourceToTelemetrySettings resourcetotelemetry.Settings `mapstructure:"resource_to_telemetry_conversion"`
	EnableOpenMetrics           bool                         `mapstructure:"enable_open_metrics"`
	AddMetricSuffixes           bool                         `mapstructure:"add_metric_suffixes"`
}

// Probe is what a harness sees of one exporter.
type Probe struct {
	Config                           *Config
	Settings                         exporter.Settings
	CreateErr, StartErr, ShutdownErr error
	Started, Stopped                 int
	Metrics                          func(context.Context, pmetric.Metrics) error
	OnShutdown                       func()
}

// Next returns the probe of the next exporter.
var Next func() *Probe

func (p *Probe) Start(context.Context, component.Host) error {
	p.Started++
	return p.StartErr
}

func (p *Probe) Shutdown(context.Context) error {
	p.Stopped++
	if p.OnShutdown != nil {
		p.OnShutdown()
	}
	return p.ShutdownErr
}

func (p *Probe) Capabilities() consumer.Capabilities { return consumer.Capabilities{} }

func (p *Probe) ConsumeMetrics(ctx context.Context, m pmetric.Metrics) error {
	if p.Metrics == nil {
		return nil
	}
	return p.Metrics(ctx, m)
}

func NewFactory() exporter.Factory {
	return exporter.NewFactory(
		component.MustNewType("prometheus"),
		func() component.Config { return &Config{} },
		exporter.WithMetrics(func(_ context.Context, s exporter.Settings, c component.Config) (exporter.Metrics, error) {
			p := Next()
			p.Config, p.Settings = c.(*Config), s
			if p.CreateErr != nil {
				return nil, p.CreateErr
			}
			return p, nil
		}, component.StabilityLevelBeta),
	)
}
