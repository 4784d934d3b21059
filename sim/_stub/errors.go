// Package errors stands in for github.com/pkg/errors, without stack traces.
package errors

import (
	"errors"
	"fmt"
)

func New(s string) error              { return errors.New(s) }
func Errorf(f string, a ...interface{}) error { return fmt.Errorf(f, a...) }
func Is(err, target error) bool       { return errors.Is(err, target) }
func As(err error, target interface{}) bool   { return errors.As(err, target) }
func Unwrap(err error) error          { return errors.Unwrap(err) }

type wrapped struct {
	msg string
	err error
}

func (w *wrapped) Error() string {
	if w.msg == "" {
		return w.err.Error()
	}
	return w.msg + ": " + w.err.Error()
}
func (w *wrapped) Cause() error  { return w.err }
func (w *wrapped) Unwrap() error { return w.err }

func WithStack(err error) error {
	if err == nil {
		return nil
	}
	return &wrapped{"", err}
}

func Wrap(err error, msg string) error {
	if err == nil {
		return nil
	}
	return &wrapped{msg, err}
}

func Wrapf(err error, f string, a ...interface{}) error { return Wrap(err, fmt.Sprintf(f, a...)) }
func WithMessage(err error, msg string) error   { return Wrap(err, msg) }
func WithMessagef(err error, f string, a ...interface{}) error {
	return Wrap(err, fmt.Sprintf(f, a...))
}

func Cause(err error) error {
	for err != nil {
		c, ok := err.(interface{ Cause() error })
		if !ok {
			break
		}
		err = c.Cause()
	}
	return err
}
