package main

import (
	"errors"
	"github.com/patrickbr/gtfsparser"
	"github.com/patrickbr/gtfstidy/processors"
	"github.com/patrickbr/gtfstidy/zz_verif/vv"
	"github.com/paulmach/go.geojson"
	"os"
	"strings"
)

// zzBad are arguments that cannot be used, with what is good instead.
var zzBad = []struct{ opt, bad, good string }{
	{"date-start", "2024010", "20240101"},
	{"date-end", "20240132", "20240131"},
	{"date-start", "20230229", "20240229"},
	{"keep-mots", "3,x", "3,4"},
	{"drop-mots", "70000", "700"},
	{"polygon", "1,2,3", "1,2,3,4,1,4"},
	{"polygon", "1,2,x,4", "1,2,3,4,1,4"},
	{"bounding-box", "1,2,3,4,5,6", "1,2,3,4"},
	{"bounding-box", "1,2,y,4", "1,2,3,4"},
	{"polygon-file", "missing", "area.txt"},
	{"polygon-file", "wrong.txt", "area.txt"},
	{"polygon-file", "wrong.json", "area.json"},
	{"polygon-file", "missing.geojson", "area.json"},
}

func zzArg(opt, val string) {
	switch opt {
	case "polygon", "bounding-box", "polygon-file":
		zzStrs(opt, val)
	default:
		zzStr(opt, val)
	}
}

// zzVerifC34_args: two arguments, good or bad, for writing or for validating only.
//
//vv:cases quick=13 thorough=13 timeout=120
func zzVerifC34_args(c int) {
	a := zzBad[c]
	o := vv.Split(vv.Int("other", 0, len(zzBad)-1))
	b := zzBad[o]
	vv.Assume(a.opt != b.opt)
	zzFiles = map[string]string{
		"area.txt":   "1,2,3,4,1,4",
		"wrong.txt":  "1,2,3,4,1",
		"area.json":  "good",
		"wrong.json": "bad",
	}
	geojson.VVUnmarshalFeatureCollection = func(data []byte) (*geojson.FeatureCollection, error) {
		if strings.Contains(string(data), "good") {
			return &geojson.FeatureCollection{Features: []*geojson.Feature{{Geometry: geojson.NewPolygonGeometry([][][]float64{{{1, 2}, {3, 4}, {1, 4}, {1, 2}}})}}}, nil
		}
		return nil, errors.New("no GeoJSON")
	}
	bad, bad2, validate := vv.Split(vv.Int("bad", 0, 1)) == 1, vv.Split(vv.Int("bad2", 0, 1)) == 1, vv.Split(vv.Int("validate", 0, 1)) == 1
	r := zzMain(func() {
		if bad {
			zzArg(a.opt, a.bad)
		} else {
			zzArg(a.opt, a.good)
		}
		if bad2 {
			zzArg(b.opt, b.bad)
		} else {
			zzArg(b.opt, b.good)
		}
		zzBool("validation-mode", validate)
	}, []string{"in", "in2"}, nil, true)
	vv.Assert(zzMissing == "", "the options exist")
	fail := bad || bad2
	vv.Cover("bad", fail)
	vv.Cover("good", !fail)
	vv.ObsBool("fail", r.code != 0)
	vv.Assert((r.code != 0) == fail, "the exit status tells whether an argument cannot be used")
	if fail {
		vv.Assert(r.exits == 1 && r.parses == 0 && r.writes == 0, "nothing is read or written with arguments that cannot be used")
	} else {
		vv.Assert(r.parses == 2 && (r.writes == 1) == !validate, "with good arguments the feeds are read, and written if not only validated")
	}
}

// zzVerifC34_feeds: any of up to four feeds cannot be read, a processor fails, or
// nothing can be written.
//
//vv:cases quick=10 thorough=10 timeout=120
func zzVerifC34_feeds(c int) {
	n := c % 5 // feeds
	validate := c >= 5
	bad := make([]bool, n)
	paths := []string{}
	first := -1
	for i := 0; i < n; i++ {
		bad[i] = vv.Split(vv.Int("bad"+vv.Itoa(i), 0, 1)) == 1
		paths = append(paths, "feed"+vv.Itoa(i))
		if bad[i] && first < 0 {
			first = i
		}
	}
	write := vv.Split(vv.Int("write", 0, 1)) == 1
	crash := vv.Split(vv.Int("crash", -1, 5))
	drop, warn, prefix := vv.Split(vv.Int("drop", 0, 1)) == 1, vv.Split(vv.Int("warn", 0, 1)) == 1, vv.Split(vv.Int("prefix", 0, 1)) == 1
	help := n < 2 && vv.Split(vv.Int("help", 0, 1)) == 1
	zzWriteErr = nil
	if write {
		zzWriteErr = zzErr
	}
	os.Args = []string{"gtfstidy"}
	ran := 0
	processors.VVRun = func(p interface{}, feed *gtfsparser.Feed) bool {
		if ran == crash {
			panic(errors.New("out of range"))
		}
		ran++
		return true
	}
	r := zzMain(func() {
		zzBool("validation-mode", validate)
		zzBool("drop-errs", drop)
		zzBool("show-warnings", warn)
		zzBool("compress", true)
		zzBool("help", help)
		if prefix {
			zzStr("prefix", "p")
		}
	}, paths, func(f *gtfsparser.Feed, path, p string) error {
		for i, q := range paths {
			if q == path && bad[i] {
				return zzErr
			}
		}
		return nil
	}, false)
	vv.Assert(zzMissing == "", "the options exist")
	if help {
		vv.Assert(r.code == 0 && r.parses == 0 && r.writes == 0, "asking for help does nothing else")
		return
	}
	vv.ObsBool("fail", r.code != 0)
	if n == 0 {
		vv.Assert(r.code != 0 && r.parses == 0 && r.writes == 0, "without a feed there is an error")
		return
	}
	crashed := crash >= 0 && ran == crash
	fail := first >= 0 || !validate && (crashed || write)
	vv.Cover("fail", fail)
	vv.Cover("ok", !fail)
	vv.Cover("crashed", first < 0 && crashed)
	vv.Assert((r.code != 0) == fail, "the exit status tells whether something failed")
	if first >= 0 {
		vv.Assert(r.parses == first+1, "nothing is read after a feed that cannot be read")
		vv.Assert(ran == 0 && r.writes == 0, "nothing is written if a feed cannot be read")
		return
	}
	vv.Assert(r.parses == n, "all feeds are read")
	if validate {
		vv.Assert(ran == 0 && r.writes == 0, "nothing is written when only validating")
		return
	}
	vv.Assert(ran > 5 || crashed, "the processors run")
	if crashed {
		vv.Assert(r.writes == 0, "nothing is written after a processor failed")
	} else {
		vv.Assert(r.writes == 1, "the feed is written once")
	}
}
