// Package cobra stands in for github.com/spf13/cobra: commands with flags, run with given flag values.
package cobra

import (
	"errors"
	"fmt"
	"io"
	"os"
	"strings"

	"github.com/davidkleiven/gopf/zverif/log"
)

// PositionalArgs checks the arguments.
type PositionalArgs func(cmd *Command, args []string) error

// Command is a command.
type Command struct {
	Use, Short, Long, Example, Version                        string
	Aliases, ValidArgs                                        []string
	Hidden, SilenceUsage, SilenceErrors, DisableFlagParsing   bool
	Args                                                      PositionalArgs
	Run, PreRun, PostRun, PersistentPreRun, PersistentPostRun func(cmd *Command, args []string)
	RunE, PreRunE, PostRunE                                   func(cmd *Command, args []string) error
	flags                                                     *FlagSet
	kids                                                      []*Command
}

// OnInitialize is not run.
func OnInitialize(f ...func()) {}

// AddCommand adds subcommands.
func (c *Command) AddCommand(k ...*Command) { c.kids = append(c.kids, k...) }

// Name is the first word of the usage.
func (c *Command) Name() string { return strings.Split(c.Use, " ")[0] }

// Find is the subcommand of the path.
func (c *Command) Find(path ...string) *Command {
	for _, n := range path {
		var next *Command
		for _, k := range c.kids {
			if k.Name() == n {
				next = k
			}
		}
		if next == nil {
			return nil
		}
		c = next
	}
	return c
}

// Flags are the flags.
func (c *Command) Flags() *FlagSet {
	if c.flags == nil {
		c.flags = &FlagSet{def: map[string]interface{}{}, val: map[string]interface{}{}, ptr: map[string]func(interface{}){}}
	}
	return c.flags
}

func (c *Command) PersistentFlags() *FlagSet       { return c.Flags() }
func (c *Command) LocalFlags() *FlagSet            { return c.Flags() }
func (c *Command) MarkFlagRequired(n string) error { return nil }
func (c *Command) Help() error                     { return nil }
func (c *Command) Usage() error                    { return nil }
func (c *Command) Execute() error                  { return nil }

// Call runs the command with flag values; flags not given have their defaults.
func (c *Command) Call(flags map[string]interface{}, args ...string) error {
	f := c.Flags()
	f.val = map[string]interface{}{}
	for n := range f.ptr {
		f.ptr[n](f.def[n])
	}
	for n, v := range flags {
		if _, ok := f.def[n]; !ok {
			return errors.New("unknown flag: --" + n)
		}
		f.val[n] = v
		if f.ptr[n] != nil {
			f.ptr[n](v)
		}
	}
	if c.Args != nil {
		if err := c.Args(c, args); err != nil {
			return err
		}
	}
	if c.RunE != nil {
		return c.RunE(c, args)
	}
	if c.Run != nil {
		c.Run(c, args)
	}
	return nil
}

func ExactArgs(n int) PositionalArgs {
	return func(c *Command, a []string) error {
		if len(a) != n {
			return errors.New("wrong number of arguments")
		}
		return nil
	}
}

func MinimumNArgs(n int) PositionalArgs {
	return func(c *Command, a []string) error {
		if len(a) < n {
			return errors.New("too few arguments")
		}
		return nil
	}
}

// FlagSet holds flags.
type FlagSet struct {
	def, val map[string]interface{}
	ptr      map[string]func(interface{})
}

func (f *FlagSet) add(n string, d interface{}) { f.def[n] = d }

func (f *FlagSet) Int(n string, d int, usage string)                 { f.add(n, d) }
func (f *FlagSet) IntP(n, short string, d int, usage string)         { f.add(n, d) }
func (f *FlagSet) String(n string, d string, usage string)           { f.add(n, d) }
func (f *FlagSet) StringP(n, short string, d string, usage string)   { f.add(n, d) }
func (f *FlagSet) Bool(n string, d bool, usage string)               { f.add(n, d) }
func (f *FlagSet) BoolP(n, short string, d bool, usage string)       { f.add(n, d) }
func (f *FlagSet) Float64(n string, d float64, usage string)         { f.add(n, d) }
func (f *FlagSet) Float64P(n, short string, d float64, usage string) { f.add(n, d) }

func (f *FlagSet) IntVarP(p *int, n, short string, d int, usage string) {
	f.add(n, d)
	*p = d
	f.ptr[n] = func(v interface{}) { *p = v.(int) }
}
func (f *FlagSet) IntVar(p *int, n string, d int, usage string) { f.IntVarP(p, n, "", d, usage) }
func (f *FlagSet) StringVarP(p *string, n, short string, d string, usage string) {
	f.add(n, d)
	*p = d
	f.ptr[n] = func(v interface{}) { *p = v.(string) }
}
func (f *FlagSet) StringVar(p *string, n string, d string, usage string) {
	f.StringVarP(p, n, "", d, usage)
}
func (f *FlagSet) BoolVarP(p *bool, n, short string, d bool, usage string) {
	f.add(n, d)
	*p = d
	f.ptr[n] = func(v interface{}) { *p = v.(bool) }
}
func (f *FlagSet) BoolVar(p *bool, n string, d bool, usage string) { f.BoolVarP(p, n, "", d, usage) }

func (f *FlagSet) get(n string) (interface{}, error) {
	d, ok := f.def[n]
	if !ok {
		return nil, errors.New("flag accessed but not defined: " + n)
	}
	if v, ok := f.val[n]; ok {
		return v, nil
	}
	return d, nil
}

var errType = errors.New("trying to get a flag of another type")

func (f *FlagSet) GetInt(n string) (int, error) {
	v, err := f.get(n)
	if err != nil {
		return 0, err
	}
	if x, ok := v.(int); ok {
		return x, nil
	}
	return 0, errType
}

func (f *FlagSet) GetString(n string) (string, error) {
	v, err := f.get(n)
	if err != nil {
		return "", err
	}
	if x, ok := v.(string); ok {
		return x, nil
	}
	return "", errType
}

func (f *FlagSet) GetBool(n string) (bool, error) {
	v, err := f.get(n)
	if err != nil {
		return false, err
	}
	if x, ok := v.(bool); ok {
		return x, nil
	}
	return false, errType
}

func (f *FlagSet) GetFloat64(n string) (float64, error) {
	v, err := f.get(n)
	if err != nil {
		return 0, err
	}
	if x, ok := v.(float64); ok {
		return x, nil
	}
	return 0, errType
}

// Changed tells whether the flag was given.
func (f *FlagSet) Changed(n string) bool { _, ok := f.val[n]; return ok }

func MaximumNArgs(n int) PositionalArgs {
	return func(c *Command, a []string) error {
		if len(a) > n {
			return errors.New("too many arguments")
		}
		return nil
	}
}

func RangeArgs(min, max int) PositionalArgs {
	return func(c *Command, a []string) error {
		if len(a) < min || len(a) > max {
			return errors.New("wrong number of arguments")
		}
		return nil
	}
}

func NoArgs(c *Command, a []string) error        { return ExactArgs(0)(c, a) }
func ArbitraryArgs(c *Command, a []string) error { return nil }

// CheckErr ends the process if there is an error.
func CheckErr(e interface{}) {
	if e != nil {
		log.Fatal(e)
	}
}

func (c *Command) Flag(n string) *Flag                     { return c.Flags().Lookup(n) }
func (c *Command) Root() *Command                          { return c }
func (c *Command) Commands() []*Command                    { return c.kids }
func (c *Command) OutOrStdout() io.Writer                  { return os.Stdout }
func (c *Command) Println(a ...interface{})                { fmt.Fprintln(os.Stdout, a...) }
func (c *Command) Printf(f string, a ...interface{})       { fmt.Fprintf(os.Stdout, f, a...) }
func (c *Command) MarkPersistentFlagRequired(string) error { return nil }

// Flag is one flag.
type Flag struct {
	Name, Usage string
	Changed     bool
}

// Lookup finds a flag.
func (f *FlagSet) Lookup(n string) *Flag {
	if _, ok := f.def[n]; !ok {
		return nil
	}
	return &Flag{Name: n, Changed: f.Changed(n)}
}

func (f *FlagSet) Float64VarP(p *float64, n, short string, d float64, usage string) {
	f.add(n, d)
	*p = d
	f.ptr[n] = func(v interface{}) { *p = v.(float64) }
}
func (f *FlagSet) Float64Var(p *float64, n string, d float64, usage string) {
	f.Float64VarP(p, n, "", d, usage)
}
func (f *FlagSet) StringSlice(n string, d []string, usage string)         { f.add(n, d) }
func (f *FlagSet) StringSliceP(n, short string, d []string, usage string) { f.add(n, d) }
func (f *FlagSet) GetStringSlice(n string) ([]string, error) {
	v, err := f.get(n)
	if err != nil {
		return nil, err
	}
	s, ok := v.([]string)
	if !ok {
		return nil, errType
	}
	return s, nil
}
