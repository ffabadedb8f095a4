// Package otelarrowexporter stands in for the collector's exporter: the same
// configuration and factory, but every call is handed to a Probe.
package otelarrowexporter

import (
	"context"
	"time"

	"go.opentelemetry.io/collector/component"
	"go.opentelemetry.io/collector/config/configcompression"
	"go.opentelemetry.io/collector/config/configgrpc"
	"go.opentelemetry.io/collector/config/configretry"
	"go.opentelemetry.io/collector/consumer"
	"go.opentelemetry.io/collector/exporter"
	"go.opentelemetry.io/collector/exporter/exporterhelper"
	"go.opentelemetry.io/collector/pdata/pmetric"
	"go.opentelemetry.io/collector/pdata/ptrace"
	"google.golang.org/grpc"
)

type EncoderConfig struct {
	Level         uint   `mapstructure:"level"`
	WindowSizeMiB uint32 `mapstructure:"window_size_mib"`
	Concurrency   uint   `mapstructure:"concurrency"`
}

type PrioritizerName string

type Config struct {
	TimeoutSettings exporterhelper.TimeoutConfig    `mapstructure:",squash"`
	QueueSettings   exporterhelper.QueueBatchConfig `mapstructure:"sending_queue"`

	RetryConfig configretry.BackOffConfig `mapstructure:"retry_on_failure"`

	configgrpc.ClientConfig `mapstructure:",squash"`

	BatcherConfig exporterhelper.BatcherConfig `mapstructure:"batcher"`

	Arrow ArrowConfig `mapstructure:"arrow"`

	UserDialOptions []grpc.DialOption `mapstructure:"-"`

	MetadataKeys []string `mapstructure:"metadata_keys"`

	MetadataCardinalityLimit uint32 `mapstructure:"metadata_cardinality_limit"`
}

type ArrowConfig struct {
	NumStreams         int                    `mapstructure:"num_streams"`
	MaxStreamLifetime  time.Duration          `mapstructure:"max_stream_lifetime"`
	Zstd               EncoderConfig          `mapstructure:"zstd"`
	PayloadCompression configcompression.Type `mapstructure:"payload_compression"`
	Disabled           bool                   `mapstructure:"disabled"`
	DisableDowngrade   bool                   `mapstructure:"disable_downgrade"`
	Prioritizer        PrioritizerName        `mapstructure:"prioritizer"`
}

// Probe is what a harness sees of one exporter.
type Probe struct {
	Config                           *Config
	Settings                         exporter.Settings
	CreateErr, StartErr, ShutdownErr error
	Started, Stopped                 int
	Traces                           func(context.Context, ptrace.Traces) error
	Metrics                          func(context.Context, pmetric.Metrics) error
	OnShutdown                       func()
	queue                            []func()
}

// send: with a queue the caller is told that all is well, and the data goes out
// later, at the latest at the shutdown; with retries failed data goes out again.
func (p *Probe) send(f func() error) error {
	retry := func() error {
		err := f()
		if err != nil && p.Config != nil && p.Config.RetryConfig.Enabled {
			err = f()
		}
		return err
	}
	if p.Config != nil && p.Config.QueueSettings.Enabled {
		p.queue = append(p.queue, func() { retry() })
		return nil
	}
	return retry()
}

// Next returns the probe of the next exporter of a kind ("traces", "metrics").
var Next func(kind string) *Probe

func (p *Probe) Start(context.Context, component.Host) error {
	p.Started++
	return p.StartErr
}

func (p *Probe) Shutdown(context.Context) error {
	p.Stopped++
	for _, f := range p.queue {
		f()
	}
	p.queue = nil
	if p.OnShutdown != nil {
		p.OnShutdown()
	}
	return p.ShutdownErr
}

func (p *Probe) Capabilities() consumer.Capabilities { return consumer.Capabilities{} }

func (p *Probe) ConsumeTraces(ctx context.Context, t ptrace.Traces) error {
	if p.Traces == nil {
		return nil
	}
	return p.send(func() error { return p.Traces(ctx, t) })
}

func (p *Probe) ConsumeMetrics(ctx context.Context, m pmetric.Metrics) error {
	if p.Metrics == nil {
		return nil
	}
	return p.send(func() error { return p.Metrics(ctx, m) })
}

func NewFactory() exporter.Factory {
	return exporter.NewFactory(
		component.MustNewType("otelarrow"),
		func() component.Config { return &Config{} },
		exporter.WithTraces(func(_ context.Context, s exporter.Settings, c component.Config) (exporter.Traces, error) {
			p := Next("traces")
			p.Config, p.Settings = c.(*Config), s
			if p.CreateErr != nil {
				return nil, p.CreateErr
			}
			return p, nil
		}, component.StabilityLevelBeta),
		exporter.WithMetrics(func(_ context.Context, s exporter.Settings, c component.Config) (exporter.Metrics, error) {
			p := Next("metrics")
			p.Config, p.Settings = c.(*Config), s
			if p.CreateErr != nil {
				return nil, p.CreateErr
			}
			return p, nil
		}, component.StabilityLevelBeta),
	)
}
