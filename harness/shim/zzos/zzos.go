// Package zzos replaces os under schedule exploration: file removals are only
// recorded.
package zzos

import (
	"errors"
	real "os"
)

var (
	Stdout = real.Stdout
	Stderr = real.Stderr
	Args   = []string{"ustack"}
)

type FileMode = real.FileMode

const ModePerm = real.ModePerm

var Removed []string

// Files are the files that exist.
var Files map[string]bool

var ErrNotExist = errors.New("file does not exist")
var ErrExist = errors.New("file already exists")
var ErrClosed = errors.New("file already closed")

func Remove(name string) error {
	Removed = append(Removed, name)
	if !Files[name] {
		return ErrNotExist
	}
	delete(Files, name)
	return nil
}

func RemoveAll(name string) error {
	Remove(name)
	return nil
}

func IsNotExist(err error) bool { return err == ErrNotExist }
func IsExist(err error) bool    { return err == ErrExist }

func Getenv(string) string            { return "" }
func LookupEnv(string) (string, bool) { return "", false }
func Exit(code int)                   { panic("os.Exit") }
func Getpid() int                     { return 1 }
func Hostname() (string, error)       { return "host", nil }

func Chmod(name string, mode FileMode) error {
	if !Files[name] {
		return ErrNotExist
	}
	return nil
}

func MkdirAll(name string, mode FileMode) error { return nil }

// Lstat and Stat only tell whether the file exists.
func Stat(name string) (interface{}, error) {
	if !Files[name] {
		return nil, ErrNotExist
	}
	return name, nil
}

func Lstat(name string) (interface{}, error) { return Stat(name) }
