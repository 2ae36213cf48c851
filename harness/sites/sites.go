//go:build go1.21

// Package sites is code that logs, elsewhere than in package main; it is built under several import paths.
package sites

import "github.com/xtfly/log4g/api"

type Worker struct{ W api.Writer }

func (k *Worker) Ptr(here func(string), m string) { here(m); k.W.Info(m) }
func (k Worker) Val(here func(string), m string)  { here(m); k.W.Printf(api.Warn, "%s", m) }

type Gen[T any] struct{ v T }

func (g *Gen[T]) Log(here func(string), w api.Writer, m string) { here(m); w.Error(m) }
func (g Gen[T]) Nested(here func(string), w api.Writer, m string) {
	func() { here(m); w.Warnf("%s", m) }()
}

func Generic[T any](v T, here func(string), w api.Writer, m string) { here(m); w.Critical(m) }

//go:noinline
func Plain(here func(string), w api.Writer, m string) { here(m); w.Errorf("%s", m) }

func short(here func(string), w api.Writer, m string) { here(m); w.Debug(m) }

var Closure = func(here func(string), w api.Writer, m string) { here(m); w.Info(m) }

type log struct{ api.Writer }

var Shapes = []func(here func(string), w api.Writer, m string){
	Plain,
	short,
	Closure,
	func(here func(string), w api.Writer, m string) { (&Worker{w}).Ptr(here, m) },
	func(here func(string), w api.Writer, m string) { Worker{w}.Val(here, m) },
	func(here func(string), w api.Writer, m string) { Generic(1, here, w, m) },
	func(here func(string), w api.Writer, m string) { Generic("x", here, w, m) },
	func(here func(string), w api.Writer, m string) { (&Gen[int]{}).Log(here, w, m) },
	func(here func(string), w api.Writer, m string) { Gen[string]{}.Nested(here, w, m) },
	func(here func(string), w api.Writer, m string) {
		type inner struct{ Worker }
		inner{Worker{w}}.Val(here, m)
	},
	func(here func(string), w api.Writer, m string) {
		defer func() {
			if recover() != nil {
				here(m); w.Critical(m)
			}
		}()
		var p *int
		_ = *p
	},
	func(here func(string), w api.Writer, m string) {
		done := make(chan bool)
		go func() { defer close(done); Plain(here, w, m) }()
		<-done
	},
	// the writer is embedded: its methods are promoted
	func(here func(string), w api.Writer, m string) { l := log{w}; here(m); l.Warn(m) },
	func(here func(string), w api.Writer, m string) { f := w.Errorf; here(m); f("%s", m) },
}
