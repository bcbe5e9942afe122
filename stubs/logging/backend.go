package logging

import "context"

// Stand-in backend: the real one needs go.uber.org/zap v1.26.0, which cannot be fetched here.
// It keeps the public surface and drops every message.

type Backend struct{ config Config }

func (b *Backend) Init(config Config) error { b.config = config; return nil }

func (b *Backend) NewLogger(levels ...Level) Logger {
	return nopLogger{level: FirstOrDefaultLevel(levels...)}
}
func (b *Backend) NewLoggerCtx(_ context.Context, levels ...Level) Logger {
	return b.NewLogger(levels...)
}
func (b *Backend) NewNamedLogger(_ string, levels ...Level) Logger { return b.NewLogger(levels...) }
func (b *Backend) NewNamedLoggerCtx(_ context.Context, _ string, levels ...Level) Logger {
	return b.NewLogger(levels...)
}

type nopLogger struct{ level Level }

func (l nopLogger) Level() Level                           { return l.level }
func (l nopLogger) IsEnabledForLevel(level Level) bool     { return l.level.IsEnabledForLevel(level) }
func (l nopLogger) Trace(args ...interface{})              {}
func (l nopLogger) Tracef(fmt string, args ...interface{}) {}
func (l nopLogger) Debug(args ...interface{})              {}
func (l nopLogger) Debugf(fmt string, args ...interface{}) {}
func (l nopLogger) Info(args ...interface{})               {}
func (l nopLogger) Infof(fmt string, args ...interface{})  {}
func (l nopLogger) Warn(args ...interface{})               {}
func (l nopLogger) Warnf(fmt string, args ...interface{})  {}
func (l nopLogger) Error(args ...interface{})              {}
func (l nopLogger) Errorf(fmt string, args ...interface{}) {}
func (l nopLogger) Fatal(args ...interface{})              {}
func (l nopLogger) Fatalf(fmt string, args ...interface{}) {}
func (l nopLogger) WithKeys(fields Keys) Logger            { return l }
func (l nopLogger) WithKey(key string, value any) Logger   { return l }
func (l nopLogger) WithError(err error) Logger             { return l }
func (l nopLogger) WithLevel(level Level) Logger           { l.level = level; return l }
