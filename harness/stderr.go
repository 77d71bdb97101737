package main

import (
	"io"
	"os"
	"syscall"
)

// stderrOf returns what f writes to the standard error of the process. An error means that it could not
// be redirected, and f was not called.
func stderrOf(f func()) (string, error) {
	tmp, err := os.CreateTemp("", "vh-stderr")
	if err != nil {
		return "", err
	}
	defer tmp.Close()
	_ = os.Remove(tmp.Name())
	old, err := syscall.Dup(2)
	if err != nil {
		return "", err
	}
	defer syscall.Close(old)
	if err := syscall.Dup3(int(tmp.Fd()), 2, 0); err != nil {
		return "", err
	}
	func() {
		defer func() { err = syscall.Dup3(old, 2, 0) }() // also when f panics
		f()
	}()
	if err != nil {
		return "", err
	}
	if _, err := tmp.Seek(0, io.SeekStart); err != nil {
		return "", err
	}
	b, err := io.ReadAll(tmp)
	return string(b), err
}

// outputOf calls f and returns what it writes to the standard output and error of the process; ok is false
// if they could not be redirected.
func outputOf(f func()) (out string, ok bool) {
	old, err := syscall.Dup(1)
	if err != nil {
		f()
		return "", false
	}
	defer syscall.Close(old)
	out, err = stderrOf(func() {
		if syscall.Dup3(2, 1, 0) != nil {
			f()
			return
		}
		defer func() { ok = syscall.Dup3(old, 1, 0) == nil }() // also when f panics
		f()
	})
	if err != nil && !ok {
		f()
	}
	return out, ok && err == nil
}
