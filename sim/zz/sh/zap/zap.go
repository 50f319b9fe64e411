//go:build go1.24

package zap

import (
	"go.uber.org/zap"
	"go.uber.org/zap/zapcore"

	"github.com/crimist/trakx/zz/rt"
)

type hook struct{}

func (hook) OnWrite(ce *zapcore.CheckedEntry, fs []zapcore.Field) { rt.Fatal(ce.Message) }

// quiet keeps the level logic of the real core and drops the output.
type quiet struct{ zapcore.LevelEnabler }

func (q quiet) With([]zapcore.Field) zapcore.Core { return q }
func (q quiet) Check(e zapcore.Entry, ce *zapcore.CheckedEntry) *zapcore.CheckedEntry {
	if q.Enabled(e.Level) {
		return ce.AddCore(e, q)
	}
	return ce
}
func (q quiet) Write(e zapcore.Entry, fs []zapcore.Field) error {
	if s := rt.S; s != nil && s.Cfg.Verbose {
		enc := zapcore.NewMapObjectEncoder()
		for _, f := range fs {
			if f.Key == "error" {
				f.AddTo(enc)
			}
		}
		s.Logf("log %s: %s %v", e.Level, e.Message, enc.Fields["error"])
	}
	return nil
}
func (q quiet) Sync() error { return nil }

func New(core zapcore.Core, opts ...zap.Option) *zap.Logger {
	if core == nil {
		return zap.NewNop()
	}
	return zap.New(quiet{core}, append(opts, zap.WithFatalHook(hook{}))...)
}
func NewDevelopment(opts ...zap.Option) (*zap.Logger, error) {
	return New(quiet{zapcore.DebugLevel}, append([]zap.Option{zap.Development()}, opts...)...), nil
}
func NewProduction(opts ...zap.Option) (*zap.Logger, error) {
	return New(quiet{zapcore.InfoLevel}, opts...), nil
}
func NewExample(opts ...zap.Option) *zap.Logger { return New(quiet{zapcore.DebugLevel}, opts...) }
func NewNop() *zap.Logger                       { return zap.NewNop() }
