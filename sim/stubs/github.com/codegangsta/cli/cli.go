// Package cli is a stand-in for github.com/codegangsta/cli (not available
// offline): string, integer and switch flags, sub-commands, exit errors and both
// historical action signatures.
package cli

import (
	"fmt"
	"io"
	"os"
	"sort"
	"strconv"
	"strings"
)

// Stdout receives usage text; the simulator replaces it.
var Stdout io.Writer = os.Stdout

type Flag interface{ flagName() string }

type StringFlag struct {
	Name        string
	Value       string
	Usage       string
	EnvVar      string
	Hidden      bool
	Destination *string
}

func (f StringFlag) flagName() string { return f.Name }

type BoolFlag struct {
	Name        string
	Usage       string
	EnvVar      string
	Hidden      bool
	Destination *bool
}

func (f BoolFlag) flagName() string { return f.Name }

type IntFlag struct {
	Name        string
	Value       int
	Usage       string
	EnvVar      string
	Hidden      bool
	Destination *int
}

func (f IntFlag) flagName() string { return f.Name }

type Command struct {
	Name        string
	ShortName   string
	Aliases     []string
	Usage       string
	UsageText   string
	Description string
	ArgsUsage   string
	Category    string
	Before      func(*Context) error
	After       func(*Context) error
	Action      interface{}
	Flags       []Flag
}

type App struct {
	Name      string
	HelpName  string
	Usage     string
	UsageText string
	ArgsUsage string
	Version   string
	Author    string
	Email     string
	Copyright string
	HideHelp  bool
	Writer    io.Writer
	ErrWriter io.Writer
	Commands  []Command
	Flags     []Flag
	Before    func(*Context) error
	After     func(*Context) error
	Action    interface{}
}

func NewApp() *App { return &App{} }

// Getenv looks up EnvVar of flags; the simulator replaces it.
var Getenv = os.Getenv

// OsExiter ends the process; the simulator replaces it.
var OsExiter = os.Exit

// ErrWriter receives messages of exit errors; the simulator replaces it.
var ErrWriter io.Writer = os.Stderr

type ExitCoder interface {
	error
	ExitCode() int
}

type ExitError struct {
	exitCode int
	message  string
}

func NewExitError(message string, exitCode int) *ExitError {
	return &ExitError{exitCode: exitCode, message: message}
}

func (e *ExitError) Error() string { return e.message }
func (e *ExitError) ExitCode() int { return e.exitCode }

func HandleExitCoder(err error) {
	if e, ok := err.(ExitCoder); ok {
		if err.Error() != "" {
			fmt.Fprintln(ErrWriter, err)
		}
		OsExiter(e.ExitCode())
	}
}

type Context struct {
	App     *App
	Command Command
	vals    map[string]string
	set     map[string]bool
	args    Args
}

type Args []string

func (a Args) Get(n int) string {
	if len(a) > n {
		return a[n]
	}
	return ""
}
func (a Args) First() string { return a.Get(0) }
func (a Args) Tail() []string {
	if len(a) >= 2 {
		return a[1:]
	}
	return []string{}
}
func (a Args) Present() bool { return len(a) != 0 }

func (c *Context) String(name string) string { return c.vals[name] }
func (c *Context) IsSet(name string) bool    { return c.set[name] }
func (c *Context) Bool(name string) bool     { return c.vals[name] == "true" }
func (c *Context) Args() Args                { return c.args }
func (c *Context) NArg() int                 { return len(c.args) }
func (c *Context) NumFlags() int             { return len(c.set) }
func (c *Context) Int(name string) int       { n, _ := strconv.Atoi(c.vals[name]); return n }
func (c *Context) FlagNames() (l []string) {
	for n := range c.vals {
		l = append(l, n)
	}
	sort.Strings(l)
	return l
}

func (c *Context) GlobalString(name string) string { return c.String(name) }
func (c *Context) GlobalIsSet(name string) bool    { return c.IsSet(name) }
func (c *Context) GlobalBool(name string) bool     { return c.Bool(name) }
func (c *Context) GlobalInt(name string) int       { return c.Int(name) }

func parse(app *App, flags []Flag, args []string) (*Context, error) {
	c := &Context{App: app, vals: map[string]string{}, set: map[string]bool{}}
	known := map[string]bool{}
	isBool := map[string]bool{}
	names := map[string][]string{}
	dest := map[string]func(string){}
	env := func(n, vars, def string) {
		c.vals[n] = def
		for _, k := range strings.Split(vars, ",") {
			if k = strings.TrimSpace(k); k != "" && Getenv(k) != "" {
				c.vals[n] = Getenv(k)
				break
			}
		}
	}
	for _, f := range flags {
		l := strings.Split(f.flagName(), ",")
		for i := range l {
			l[i] = strings.TrimSpace(l[i])
		}
		for _, n := range l {
			known[n], names[n] = true, l
			switch f := f.(type) {
			case StringFlag:
				env(n, f.EnvVar, f.Value)
				if f.Destination != nil {
					dest[n] = func(v string) { *f.Destination = v }
				}
			case IntFlag:
				env(n, f.EnvVar, strconv.Itoa(f.Value))
				if f.Destination != nil {
					dest[n] = func(v string) { *f.Destination, _ = strconv.Atoi(v) }
				}
			case BoolFlag:
				env(n, f.EnvVar, "")
				isBool[n] = true
				if f.Destination != nil {
					dest[n] = func(v string) { *f.Destination = v == "true" }
				}
			}
			if dest[n] != nil {
				dest[n](c.vals[n])
			}
		}
	}
	for i := 0; i < len(args); i++ {
		a := args[i]
		if !strings.HasPrefix(a, "-") || a == "-" {
			c.args = append(c.args, args[i:]...)
			break
		}
		n := strings.TrimLeft(a, "-")
		v, has := "", false
		if k := strings.IndexByte(n, '='); k >= 0 {
			n, v, has = n[:k], n[k+1:], true
		}
		if !known[n] {
			return c, fmt.Errorf("flag provided but not defined: -%s", n)
		}
		if !has && isBool[n] {
			v, has = "true", true
		}
		if !has {
			i++
			if i >= len(args) {
				return c, fmt.Errorf("flag needs an argument: -%s", n)
			}
			v = args[i]
		}
		for _, n := range names[n] {
			c.vals[n], c.set[n] = v, true
			if dest[n] != nil {
				dest[n](v)
			}
		}
	}
	return c, nil
}

func call(before, after func(*Context) error, action interface{}, c *Context) (err error) {
	if after != nil {
		defer func() {
			if e := after(c); e != nil {
				err = e
			}
		}()
	}
	if before != nil {
		if err := before(c); err != nil {
			HandleExitCoder(err)
			return err
		}
	}
	switch f := action.(type) {
	case func(*Context) error:
		err = f(c)
		HandleExitCoder(err)
	case func(*Context):
		f(c)
	}
	return err
}

func (a *App) Run(arguments []string) error {
	rest := arguments[1:]
	if a.Writer == nil {
		a.Writer = Stdout
	}
	if a.ErrWriter == nil {
		a.ErrWriter = ErrWriter
	}
	if len(rest) > 0 {
		for _, cmd := range a.Commands {
			is := cmd.Name == rest[0] || cmd.ShortName == rest[0] && rest[0] != ""
			for _, n := range cmd.Aliases {
				is = is || n == rest[0]
			}
			if is {
				c, err := parse(a, cmd.Flags, rest[1:])
				if err != nil {
					fmt.Fprintln(a.Writer, "Incorrect Usage.", err)
					return err
				}
				c.Command = cmd
				if a.Before != nil {
					if err := a.Before(c); err != nil {
						HandleExitCoder(err)
						return err
					}
				}
				err = call(cmd.Before, cmd.After, cmd.Action, c)
				if a.After != nil {
					if e := a.After(c); e != nil {
						err = e
					}
				}
				return err
			}
		}
	}
	c, err := parse(a, a.Flags, rest)
	if err != nil {
		fmt.Fprintln(a.Writer, "Incorrect Usage.", err)
		return err
	}
	return call(a.Before, a.After, a.Action, c)
}
