// Package cli stands in for the part of github.com/urfave/cli/v2 the tool uses.
package cli

import (
	"fmt"
	"strconv"
	"strings"
)

type Context struct {
	App  *App
	rest []string
}

type Flag interface {
	names() []string
	prepare()
	set(value string, given bool) error
	isBool() bool
}

type BoolFlag struct {
	Name        string
	Aliases     []string
	Usage       string
	Value       bool
	Destination *bool
}

func (f *BoolFlag) names() []string { return append([]string{f.Name}, f.Aliases...) }
func (f *BoolFlag) isBool() bool    { return true }
func (f *BoolFlag) prepare() {
	if f.Destination != nil {
		*f.Destination = f.Value
	}
}
func (f *BoolFlag) set(v string, given bool) error {
	b := true
	if given {
		var err error
		if b, err = strconv.ParseBool(v); err != nil {
			return err
		}
	}
	if f.Destination != nil {
		*f.Destination = b
	}
	return nil
}

type StringFlag struct {
	Name        string
	Aliases     []string
	Usage       string
	Value       string
	Destination *string
}

func (f *StringFlag) names() []string { return append([]string{f.Name}, f.Aliases...) }
func (f *StringFlag) isBool() bool    { return false }
func (f *StringFlag) prepare() {
	if f.Destination != nil {
		*f.Destination = f.Value
	}
}
func (f *StringFlag) set(v string, _ bool) error {
	if f.Destination != nil {
		*f.Destination = v
	}
	return nil
}

type App struct {
	Name   string
	Usage  string
	Flags  []Flag
	Action func(*Context) error
}

func (a *App) Run(args []string) error {
	for _, f := range a.Flags {
		f.prepare()
	}
	c := &Context{App: a}
	for i := 1; i < len(args); i++ {
		if !strings.HasPrefix(args[i], "-") || args[i] == "-" {
			c.rest = append(c.rest, args[i:]...)
			break
		}
		name, value, given := strings.Cut(strings.TrimLeft(args[i], "-"), "=")
		var hit Flag
		for _, f := range a.Flags {
			for _, n := range f.names() {
				if n == name {
					hit = f
				}
			}
		}
		if hit == nil {
			return fmt.Errorf("flag provided but not defined: -%s", name)
		}
		if !hit.isBool() && !given {
			if i+1 == len(args) {
				return fmt.Errorf("flag needs an argument: -%s", name)
			}
			i++
			value = args[i]
		}
		if err := hit.set(value, given); err != nil {
			return err
		}
	}
	if a.Action == nil {
		return nil
	}
	return a.Action(c)
}
