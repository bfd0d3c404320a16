package main

import (
	"errors"
	"github.com/patrickbr/gtfsparser"
	"github.com/patrickbr/gtfstidy/processors"
	"github.com/patrickbr/gtfstidy/zz_verif/vv"
	"github.com/patrickbr/gtfswriter"
	zzflag "github.com/spf13/pflag"
	"os"
)

// zz records what main did.
type zzRun struct {
	exits  int
	code   int // of the exit
	parses int
	paths  []string
	pres   []string
	opts   []gtfsparser.ParseOptions
	feed   *gtfsparser.Feed // written
	writer *gtfswriter.Writer
	out    string
	procs  []interface{}
	feeds  []*gtfsparser.Feed
	writes int
}

var zz *zzRun

// zzExit stands for os.Exit: nothing happens after the first.
func zzExit(code int) {
	if zz.exits == 0 {
		zz.exits, zz.code = 1, code
	}
	panic("exit")
}

// zzWriteErr is what writing returns.
var zzWriteErr error

// zzFiles are the files there are.
var zzFiles map[string]string

func zzStat(path string) (os.FileInfo, error)  { return nil, nil }
func zzIsNotExist(err error) bool              { return err != nil }
func zzCreate(path string) (*os.File, error)   { return nil, nil }
func zzMkdir(path string, m os.FileMode) error { return nil }
func zzReadFile(path string) ([]byte, error) {
	if s, ok := zzFiles[path]; ok {
		return []byte(s), nil
	}
	return nil, errors.New("no such file")
}

// zzMain runs main with the flags set by set and the feeds at paths, which read fills.
func zzMain(set func(), paths []string, read func(feed *gtfsparser.Feed, path, prefix string) error, stub bool) *zzRun {
	zz = &zzRun{}
	zzflag.Reset()
	zzflag.Operands = paths
	zzflag.OnParse = set
	parse := func(feed *gtfsparser.Feed, path, prefix string) error {
		zz.parses++
		zz.paths = append(zz.paths, path)
		zz.pres = append(zz.pres, prefix)
		zz.opts = append(zz.opts, feed.VVOpts())
		zz.feeds = append(zz.feeds, feed)
		if read != nil {
			return read(feed, path, prefix)
		}
		return nil
	}
	gtfsparser.VVParse = func(feed *gtfsparser.Feed, path string) error { return parse(feed, path, "") }
	gtfsparser.VVPrefixParse = func(feed *gtfsparser.Feed, path, prefix string) error { return parse(feed, path, prefix) }
	gtfswriter.VVWrite = func(w *gtfswriter.Writer, feed *gtfsparser.Feed, path string) error {
		zz.feed, zz.writer, zz.out = feed, w, path
		zz.writes++
		return zzWriteErr
	}
	if stub {
		processors.VVRun = func(p interface{}, feed *gtfsparser.Feed) bool {
			zz.procs = append(zz.procs, p)
			return true
		}
	}
	zzDo()
	return zz
}

func zzDo() {
	defer func() {
		if r := recover(); r != nil {
			if zz.exits == 0 {
				panic(r)
			}
		}
	}()
	main()
}

func zzBool(name string, v bool) {
	f := zzflag.Lookup(name)
	if f == nil || f.Bool == nil {
		zzMissing = name
		return
	}
	*f.Bool = v
}
func zzStr(name, v string) {
	f := zzflag.Lookup(name)
	if f == nil || f.Str == nil {
		zzMissing = name
		return
	}
	*f.Str = v
}
func zzInt(name string, v int) {
	f := zzflag.Lookup(name)
	if f == nil || f.Int == nil {
		zzMissing = name
		return
	}
	*f.Int = v
}
func zzStrs(name string, v ...string) {
	f := zzflag.Lookup(name)
	if f == nil || f.Strs == nil {
		zzMissing = name
		return
	}
	*f.Strs = v
}

// zzMissing is a documented option that is not defined.
var zzMissing string

var zzErr = errors.New("no feed")

func zzSplit(b bool) bool { return vv.Split(vv.IteInt(b, 1, 0)) == 1 }
