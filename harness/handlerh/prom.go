// Package handlerh checks package handler through its public interface.
package handlerh

import (
	"github.com/prometheus/client_golang/prometheus"
	dto "github.com/prometheus/client_model/go"

	"github.com/chronos-tachyon/morehttp/vharness/vsym"
)

// Replacements of the Prometheus client, which is not explored symbolically.
// They keep nothing but the values; the replayed run uses the real client.

type metric struct{}

func (metric) Desc() *prometheus.Desc           { return nil }
func (metric) Write(*dto.Metric) error          { panic("not modelled") }
func (metric) Describe(chan<- *prometheus.Desc) { panic("not modelled") }
func (metric) Collect(chan<- prometheus.Metric) { panic("not modelled") }

type counter struct {
	metric
	v float64
}

func (c *counter) Inc() { vsym.Atomic(func() { c.v = c.v + 1 }) }
func (c *counter) Add(x float64) {
	if x < 0 {
		panic("counter cannot decrease in value")
	}
	vsym.Atomic(func() { c.v = c.v + x })
}

type histogram struct {
	metric
	n   int64
	sum float64
}

func (h *histogram) Observe(x float64) {
	vsym.Atomic(func() {
		h.n++
		h.sum = h.sum + x
	})
}

type child struct {
	label string
	c     *counter
}

type vec struct{ kids []*child }

// model: github.com/prometheus/client_golang/prometheus/promauto.NewCounter github.com/prometheus/client_golang/prometheus.NewCounter
func newCounter(opts prometheus.CounterOpts) prometheus.Counter { return &counter{} }

// model: github.com/prometheus/client_golang/prometheus/promauto.NewHistogram github.com/prometheus/client_golang/prometheus.NewHistogram
func newHistogram(opts prometheus.HistogramOpts) prometheus.Histogram { return &histogram{} }

// model: github.com/prometheus/client_golang/prometheus/promauto.NewCounterVec github.com/prometheus/client_golang/prometheus.NewCounterVec
func newCounterVec(opts prometheus.CounterOpts, labels []string) *prometheus.CounterVec {
	if len(labels) != 1 {
		panic("not modelled")
	}
	v := new(prometheus.CounterVec)
	vsym.SetSide(v, "vec", &vec{})
	vsym.SetSide(v, "label", labels[0])
	return v
}

// model: github.com/prometheus/client_golang/prometheus.MustRegister
func mustRegister(cs ...prometheus.Collector) {}

// model: (*github.com/prometheus/client_golang/prometheus.CounterVec).WithLabelValues
func withLabelValues(v *prometheus.CounterVec, lvs ...string) (c prometheus.Counter) {
	if len(lvs) != 1 {
		panic("inconsistent label cardinality")
	}
	x := vsym.Side(v, "vec").(*vec)
	vsym.Atomic(func() {
		for _, k := range x.kids {
			if vsym.StringEq(k.label, lvs[0]) {
				c = k.c
				return
			}
		}
		k := &child{lvs[0], &counter{}}
		x.kids = append(x.kids, k)
		c = k.c
	})
	return c
}

// model: (*github.com/prometheus/client_golang/prometheus.CounterVec).With
func with(v *prometheus.CounterVec, labels prometheus.Labels) prometheus.Counter {
	s, ok := labels[vsym.Side(v, "label").(string)]
	if !ok || len(labels) != 1 {
		panic("inconsistent label cardinality")
	}
	return withLabelValues(v, s)
}

// model: (*github.com/prometheus/client_golang/prometheus.CounterVec).GetMetricWithLabelValues
func getMetricWithLabelValues(v *prometheus.CounterVec, lvs ...string) (prometheus.Counter, error) {
	return withLabelValues(v, lvs...), nil
}

// model: (*github.com/prometheus/client_golang/prometheus.CounterVec).GetMetricWith
func getMetricWith(v *prometheus.CounterVec, labels prometheus.Labels) (prometheus.Counter, error) {
	return with(v, labels), nil
}

// value reads a counter.
func value(c prometheus.Counter) float64 {
	if m, ok := c.(*counter); ok {
		return m.v
	}
	var d dto.Metric
	if err := c.Write(&d); err != nil {
		panic(err)
	}
	return d.GetCounter().GetValue()
}

// at reads the counter of one label.
func at(v *prometheus.CounterVec, label string) float64 { return value(v.WithLabelValues(label)) }

// counters returns the values of the counters of all labels.
func counters(v *prometheus.CounterVec) (vs []float64) {
	if vsym.Symbolic() {
		for _, k := range vsym.Side(v, "vec").(*vec).kids {
			vs = append(vs, k.c.v)
		}
		return vs
	}
	ch := make(chan prometheus.Metric, 1000)
	v.Collect(ch)
	close(ch)
	for m := range ch {
		vs = append(vs, value(m.(prometheus.Counter)))
	}
	return vs
}

// observed reads the number of observations of a histogram and their sum.
func observed(h prometheus.Histogram) (int64, float64) {
	if m, ok := h.(*histogram); ok {
		return m.n, m.sum
	}
	var d dto.Metric
	if err := h.Write(&d); err != nil {
		panic(err)
	}
	return int64(d.GetHistogram().GetSampleCount()), d.GetHistogram().GetSampleSum()
}
