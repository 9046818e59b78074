// Package simioutil stands in for package io/ioutil.
package simioutil

import (
	"io"
	"io/fs"

	"simworld/simos"
)

var Discard io.Writer = io.Discard

func ReadAll(r io.Reader) ([]byte, error)               { return io.ReadAll(r) }
func ReadFile(n string) ([]byte, error)                 { return simos.ReadFile(n) }
func WriteFile(n string, d []byte, p fs.FileMode) error { return simos.WriteFile(n, d, p) }
func NopCloser(r io.Reader) io.ReadCloser               { return io.NopCloser(r) }
func TempFile(dir, pattern string) (*simos.File, error) { return simos.CreateTemp(dir, pattern) }
func TempDir(dir, pattern string) (string, error)       { return simos.MkdirTemp(dir, pattern) }
