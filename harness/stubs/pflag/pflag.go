// Package pflag is a stand-in for the command line parser: it records the flags that
// are defined, and lets the harness give them their values.
package pflag

import (
	"fmt"
	"os"
)

// Flag is a flag that has been defined.
type Flag struct {
	Name, Shorthand, Usage string
	Bool                   *bool
	Str                    *string
	Int                    *int
	Strs                   *[]string
}

var (
	// Flags are the defined flags, in order.
	Flags []*Flag
	// OnParse sets the values.
	OnParse func()
	// Operands are the arguments.
	Operands []string
	// Usage prints the help.
	Usage = func() {}
)

// Reset forgets all flags.
func Reset() { Flags, Operands = nil, nil }

// Lookup finds a flag.
func Lookup(name string) *Flag {
	for _, f := range Flags {
		if f.Name == name {
			return f
		}
	}
	return nil
}

func add(f *Flag) {
	for _, g := range Flags {
		if g.Name == f.Name || g.Shorthand == f.Shorthand && f.Shorthand != "" {
			panic("flag redefined: " + f.Name)
		}
	}
	Flags = append(Flags, f)
}

func BoolVarP(p *bool, name, short string, value bool, usage string) {
	*p = value
	add(&Flag{Name: name, Shorthand: short, Usage: usage, Bool: p})
}
func StringVarP(p *string, name, short string, value string, usage string) {
	*p = value
	add(&Flag{Name: name, Shorthand: short, Usage: usage, Str: p})
}
func IntVarP(p *int, name, short string, value int, usage string) {
	*p = value
	add(&Flag{Name: name, Shorthand: short, Usage: usage, Int: p})
}
func StringArrayVarP(p *[]string, name, short string, value []string, usage string) {
	*p = value
	add(&Flag{Name: name, Shorthand: short, Usage: usage, Strs: p})
}
func BoolVar(p *bool, name string, value bool, usage string) { BoolVarP(p, name, "", value, usage) }
func StringVar(p *string, name string, value string, usage string) {
	StringVarP(p, name, "", value, usage)
}
func IntVar(p *int, name string, value int, usage string) { IntVarP(p, name, "", value, usage) }
func StringArrayVar(p *[]string, name string, value []string, usage string) {
	StringArrayVarP(p, name, "", value, usage)
}
func BoolP(name, short string, value bool, usage string) *bool {
	p := new(bool)
	BoolVarP(p, name, short, value, usage)
	return p
}
func StringP(name, short string, value string, usage string) *string {
	p := new(string)
	StringVarP(p, name, short, value, usage)
	return p
}
func IntP(name, short string, value int, usage string) *int {
	p := new(int)
	IntVarP(p, name, short, value, usage)
	return p
}
func StringArrayP(name, short string, value []string, usage string) *[]string {
	p := new([]string)
	StringArrayVarP(p, name, short, value, usage)
	return p
}
func Bool(name string, value bool, usage string) *bool { return BoolP(name, "", value, usage) }
func String(name string, value string, usage string) *string {
	return StringP(name, "", value, usage)
}
func Int(name string, value int, usage string) *int { return IntP(name, "", value, usage) }
func StringArray(name string, value []string, usage string) *[]string {
	return StringArrayP(name, "", value, usage)
}

// Parse lets the harness set the values.
func Parse() {
	if OnParse != nil {
		OnParse()
	}
}

func Args() []string { return Operands }
func NArg() int      { return len(Operands) }
func Arg(i int) string {
	if i < 0 || i >= len(Operands) {
		return ""
	}
	return Operands[i]
}
func PrintDefaults() { fmt.Fprint(os.Stderr, "flags\n") }
