// Package concurrentbatchprocessor stands in for the collector's batcher: the
// same configuration and factory, but every call is handed to a Probe and then
// to the next consumer.
package concurrentbatchprocessor

import (
	"context"
	"time"

	"go.opentelemetry.io/collector/component"
	"go.opentelemetry.io/collector/consumer"
	"go.opentelemetry.io/collector/pdata/pmetric"
	"go.opentelemetry.io/collector/pdata/ptrace"
	"go.opentelemetry.io/collector/processor"
)

type Config struct {
	Timeout                  time.Duration `mapstructure:"timeout"`
	SendBatchSize            uint32        `mapstructure:"send_batch_size"`
	SendBatchMaxSize         uint32        `mapstructure:"send_batch_max_size"`
	MetadataKeys             []string      `mapstructure:"metadata_keys"`
	MetadataCardinalityLimit uint32        `mapstructure:"metadata_cardinality_limit"`
	MaxConcurrency           uint32        `mapstructure:"max_concurrency"`
	EarlyReturn              bool          `mapstructure:"early_return"`
}

type Probe struct {
	Config                           *Config
	CreateErr, StartErr, ShutdownErr error
	Started, Stopped                 int
	OnShutdown                       func()
	nextT                            consumer.Traces
	nextM                            consumer.Metrics
	queue                            []func()
}

// send: with an early return the caller does not hear of the result, and the
// data goes out later, at the latest at the shutdown.
func (p *Probe) send(f func() error) error {
	if p.Config != nil && p.Config.EarlyReturn {
		p.queue = append(p.queue, func() { f() })
		return nil
	}
	return f()
}

// Next returns the probe of the next batcher of a kind ("traces", "metrics").
var Next func(kind string) *Probe

func (p *Probe) Start(context.Context, component.Host) error {
	p.Started++
	return p.StartErr
}

func (p *Probe) Shutdown(context.Context) error {
	p.Stopped++
	for _, f := range p.queue {
		f()
	}
	p.queue = nil
	if p.OnShutdown != nil {
		p.OnShutdown()
	}
	return p.ShutdownErr
}

func (p *Probe) Capabilities() consumer.Capabilities { return consumer.Capabilities{} }

func (p *Probe) ConsumeTraces(ctx context.Context, t ptrace.Traces) error {
	return p.send(func() error { return p.nextT.ConsumeTraces(ctx, t) })
}

func (p *Probe) ConsumeMetrics(ctx context.Context, m pmetric.Metrics) error {
	return p.send(func() error { return p.nextM.ConsumeMetrics(ctx, m) })
}

func NewFactory() processor.Factory {
	return processor.NewFactory(
		component.MustNewType("concurrentbatch"),
		func() component.Config { return &Config{} },
		processor.WithTraces(func(_ context.Context, _ processor.Settings, c component.Config, next consumer.Traces) (processor.Traces, error) {
			p := Next("traces")
			p.Config, p.nextT = c.(*Config), next
			if p.CreateErr != nil {
				return nil, p.CreateErr
			}
			return p, nil
		}, component.StabilityLevelBeta),
		processor.WithMetrics(func(_ context.Context, _ processor.Settings, c component.Config, next consumer.Metrics) (processor.Metrics, error) {
			p := Next("metrics")
			p.Config, p.nextM = c.(*Config), next
			if p.CreateErr != nil {
				return nil, p.CreateErr
			}
			return p, nil
		}, component.StabilityLevelBeta),
	)
}
