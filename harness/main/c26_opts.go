package main

import (
	"github.com/patrickbr/gtfsparser"
	"github.com/patrickbr/gtfsparser/gtfs"
	"github.com/patrickbr/gtfstidy/processors"
	"github.com/patrickbr/gtfstidy/zz_verif/vv"
)

// kinds of processors
const (
	zzFast = iota
	zzGeo
	zzOrphan
	zzAgency
	zzParAvg
	zzStopDup
	zzCluster
	zzPlatform
	zzRemeas
	zzShpMin
	zzStMeas
	zzSnap
	zzShpDup
	zzRouteDup
	zzSvcDup
	zzAdj
	zzTripDup
	zzSvcMin
	zzNonOver
	zzFreq
	zzCalDates
	zzEnforce
	zzIDs
	zzKinds
)

var zzKindNames = []string{"too fast trips", "complete trips", "orphans", "agencies", "far-away parents", "stop duplicates", "reclustering", "platform codes", "shape measures", "shape minimizer", "stop time measures", "snapping", "shape duplicates", "route duplicates", "service duplicates", "adjacent stop times", "trip duplicates", "service minimizer", "non-overlapping services", "frequencies", "calendar dates", "stop parents", "IDs"}

func zzKind(p interface{}) int {
	switch p.(type) {
	case processors.TooFastTripRemover:
		return zzFast
	case processors.CompleteTripsGeoFilter:
		return zzGeo
	case processors.OrphanRemover:
		return zzOrphan
	case processors.AgencyDuplicateRemover:
		return zzAgency
	case processors.StopParentAverager:
		return zzParAvg
	case processors.StopDuplicateRemover:
		return zzStopDup
	case processors.StopReclusterer:
		return zzCluster
	case processors.PlatformCodeDropper:
		return zzPlatform
	case processors.ShapeRemeasurer:
		return zzRemeas
	case processors.ShapeMinimizer:
		return zzShpMin
	case processors.StopTimeRemeasurer:
		return zzStMeas
	case processors.ShapeSnapper:
		return zzSnap
	case processors.ShapeDuplicateRemover:
		return zzShpDup
	case processors.RouteDuplicateRemover:
		return zzRouteDup
	case processors.ServiceDuplicateRemover:
		return zzSvcDup
	case processors.AdjacentStopTimeGrouper:
		return zzAdj
	case processors.TripDuplicateRemover:
		return zzTripDup
	case processors.ServiceMinimizer:
		return zzSvcMin
	case processors.ServiceNonOverlapper:
		return zzNonOver
	case processors.FrequencyMinimizer:
		return zzFreq
	case processors.ServiceCalDatesRem:
		return zzCalDates
	case processors.StopParentEnforcer:
		return zzEnforce
	case processors.IDMinimizer:
		return zzIDs
	}
	return -1
}

// zzOpts are the options that enable processors, and those changing what they do.
var zzOpts = []string{
	"delete-orphans", "min-shapes", "remeasure-shapes", "remeasure-stop-times", "snap-stops", "remove-red-shapes",
	"remove-red-routes", "remove-red-services", "minimize-ids-num", "minimize-ids-char", "minimize-services", "minimize-stoptimes",
	"remove-cal-dates", "ensure-stop-parents", "drop-too-fast-trips", "remove-red-stops", "remove-red-trips", "red-trips-fuzzy",
	"red-trips-aggressive", "red-stops-fuzzy", "remove-red-agencies", "recluster-stops", "fix-far-away-parents", "complete-filtered-trips",
	"drop-platform-for-parentless", "non-overlapping-services", "group-adj-stop-times", "drop-errs",
	// shorthands
	"validation-mode", "compress", "Compress", "merge", "Merge", "fix", "keep-ids",
}

func zzIdx(name string) int {
	for i, n := range zzOpts {
		if n == name {
			return i
		}
	}
	panic("no option " + name)
}

// zzVerifC26_procs: up to three (thorough: four) options of all that matter to the
// processors are given (or all but up to two or three); case: the first of them.
//
//vv:cases quick=70 thorough=70 timeout=120 ttimeout=400 nomerge=1
func zzVerifC26_procs(c int) {
	n := len(zzOpts)
	if c >= 2*n {
		return
	}
	inv := c >= n
	a := c % n
	b := vv.Int("b", a, n-1)
	d := b
	if !inv || vv.Tier() > 0 {
		d = vv.Int("d", a, n-1)
		vv.Assume(vv.Or(d > b, vv.And(d == b, b == a)))
	}
	e := d
	if !inv && vv.Tier() > 0 {
		e = vv.Int("e", a, n-1)
		vv.Assume(vv.Or(e > d, vv.And(e == d, d == b)))
	}
	on := make([]bool, n)
	for i := 0; i < n; i++ {
		on[i] = vv.Or(i == a, b == i, d == i, e == i)
		if inv {
			on[i] = vv.And(!on[i], i < zzIdx("validation-mode"))
		}
	}
	r := zzMain(func() {
		for i, o := range zzOpts {
			zzBool(o, on[i])
		}
		zzInt("min-headway", 77)
		zzInt("max-headway", 1234)
		zzStr("prefix", "pp")
		zzStrs("polygon", "1,2,1,3,2,3")
	}, []string{"in"}, nil, true)
	vv.Assert(zzMissing == "", "the options exist")
	f := func(names ...string) bool {
		x := false
		for _, o := range names {
			x = vv.Or(x, on[zzIdx(o)])
		}
		return x
	}
	vv.Cover("validation", r.feed == nil || inv)
	vv.Cover("processing", r.feed != nil)
	vv.Assert(vv.Iff(r.feed == nil, f("validation-mode")), "there is an output unless only validating")
	if r.feed == nil {
		vv.Assert(len(r.procs) == 0, "nothing runs when only validating")
		vv.Assert(r.opts[0].DryRun && !r.opts[0].DropErroneous, "validation reports all errors")
		return
	}
	any := []string{"compress", "Compress"}
	mrg := []string{"merge", "Merge"}
	want := map[int]bool{
		zzFast:     f("drop-too-fast-trips"),
		zzGeo:      f("complete-filtered-trips"),
		zzOrphan:   f(append(append([]string{"delete-orphans"}, any...), mrg...)...),
		zzAgency:   f(append(append([]string{"remove-red-agencies"}, any...), mrg...)...),
		zzParAvg:   f("fix-far-away-parents"),
		zzStopDup:  f(append(append([]string{"remove-red-stops"}, any...), mrg...)...),
		zzCluster:  f("recluster-stops", "Merge"),
		zzPlatform: f("drop-platform-for-parentless"),
		zzShpMin:   f("min-shapes", "compress", "Compress"),
		zzStMeas:   f("remeasure-stop-times"),
		zzSnap:     f("snap-stops"),
		zzShpDup:   f("remove-red-shapes", "compress", "Compress"),
		zzRouteDup: f(append(append([]string{"remove-red-routes"}, any...), mrg...)...),
		zzSvcDup:   f(append(append([]string{"remove-red-services"}, any...), mrg...)...),
		zzAdj:      f("group-adj-stop-times"),
		zzTripDup:  f(append(append([]string{"remove-red-trips"}, any...), mrg...)...),
		zzSvcMin:   f(append(append([]string{"minimize-services"}, any...), mrg...)...),
		zzNonOver:  f("non-overlapping-services"),
		zzFreq:     f("minimize-stoptimes", "Compress"),
		zzCalDates: f("remove-cal-dates"),
		zzEnforce:  f("ensure-stop-parents"),
		zzIDs:      f("minimize-ids-num", "minimize-ids-char", "Compress"),
	}
	// measures are needed to work on shapes
	want[zzRemeas] = vv.Or(f("remeasure-shapes"), want[zzShpMin], want[zzShpDup], want[zzStMeas])
	fuzzyStops := f("red-stops-fuzzy", "Compress", "Merge")
	fuzzyTrips := f("red-trips-fuzzy", "Compress", "Merge")
	got := make([]int, zzKinds)
	first := make([]int, zzKinds)
	last := make([]int, zzKinds)
	for i, p := range r.procs {
		k := zzKind(p)
		vv.Assert(k >= 0, "known processors run")
		if got[k] == 0 {
			first[k] = i
		}
		got[k]++
		last[k] = i
		switch q := p.(type) {
		case processors.StopDuplicateRemover:
			vv.Assert(vv.Iff(q.Fuzzy, fuzzyStops), "fuzzy stops")
			vv.Assert(q.DistThresholdStop == 5 && q.DistThresholdStation == 50, "thresholds of stop duplicates")
		case processors.TripDuplicateRemover:
			vv.Assert(vv.Iff(q.Fuzzy, fuzzyTrips), "fuzzy trips")
			vv.Assert(vv.Iff(q.Aggressive, f("red-trips-aggressive")), "aggressive merging of trips")
		case processors.ShapeRemeasurer:
			vv.Assert(vv.Iff(q.Force, want[zzStMeas]), "shapes are measured anew to measure stop times")
		case processors.FrequencyMinimizer:
			vv.Assert(q.MinHeadway == 77 && q.MaxHeadway == 1234, "headway limits")
		case processors.ShapeMinimizer:
			vv.Assert(q.Epsilon == 1, "shapes are minimized up to a meter")
		case processors.ShapeSnapper:
			vv.Assert(q.MaxDist == 100, "stops are snapped beyond 100 m")
		case processors.ShapeDuplicateRemover:
			vv.Assert(q.MaxEqDist == 1, "shape duplicates are within a meter")
		case processors.StopParentAverager:
			vv.Assert(q.MaxDist == 100, "parents are far away beyond 100 m")
		case processors.CompleteTripsGeoFilter:
			vv.Assert(len(q.Polygons) == 1 && len(q.Polygons[0].OuterRing) == 4, "the area is given to the filter")
		case processors.IDMinimizer:
			vv.Assert(vv.Iff(q.Base == 10, f("minimize-ids-num")), "numbers as IDs")
			vv.Assert(q.Base == 10 || q.Base == 36, "characters as IDs")
			vv.Assert(i == len(r.procs)-1, "IDs are minimized last")
		}
	}
	for k := 0; k < zzKinds; k++ {
		vv.Assert(vv.Iff(got[k] > 0, want[k]), "runs exactly if enabled: "+zzKindNames[k])
	}
	// shapes are measured before their measures are used
	for _, k := range []int{zzShpMin, zzStMeas, zzShpDup} {
		if got[k] > 0 && got[zzRemeas] > 0 {
			vv.Assert(first[zzRemeas] < first[k], "shapes are measured first")
		}
	}
	// what the output is promised to be is not undone by what runs later
	after := func(k int, what string, ks ...int) {
		for _, l := range ks {
			if got[k] > 0 && got[l] > 0 {
				vv.Assert(last[l] < last[k], what)
			}
		}
	}
	after(zzOrphan, "orphans are removed after what may leave some", zzFast, zzGeo, zzSnap, zzTripDup)
	after(zzCalDates, "calendar dates are removed after what may add some", zzSvcMin, zzTripDup, zzNonOver, zzSvcDup, zzFreq)
	after(zzEnforce, "stops get parents after what may add or move stops", zzStopDup, zzSnap, zzCluster, zzParAvg)
	after(zzStopDup, "stop duplicates are removed after what may lead to some", zzPlatform, zzSnap)
	after(zzSvcDup, "service duplicates are removed after what may lead to some", zzTripDup)
	for _, g := range r.feeds {
		vv.Assert(g == r.feed, "the feed that was read is written")
	}
	vv.Assert((len(r.opts[0].PolygonFilter) == 1) != want[zzGeo], "the area is given to the parser, or to the filter completing trips")
	vv.ObsInt("processors", len(r.procs))
}

// zzVerifC26_keep: which IDs are kept.
//
//vv:cases quick=1 thorough=1 timeout=120 nomerge=1
func zzVerifC26_keep(c int) {
	names := []string{"keep-station-ids", "keep-block-ids", "keep-fare-ids", "keep-shape-ids", "keep-route-ids", "keep-trip-ids", "keep-level-ids", "keep-pathway-ids", "keep-service-ids", "keep-agency-ids", "keep-attribution-ids"}
	v := make([]bool, len(names))
	for i := range names {
		v[i] = vv.Bool(names[i])
	}
	all := vv.Bool("keep-ids")
	char := vv.Bool("minimize-ids-char")
	r := zzMain(func() {
		for i, n := range names {
			zzBool(n, v[i])
		}
		zzBool("keep-ids", all)
		zzBool("minimize-ids-char", char)
		zzBool("minimize-ids-num", !char)
	}, []string{"in"}, nil, true)
	vv.Assert(zzMissing == "", "the options exist")
	vv.Assert(len(r.procs) == 1, "only IDs are minimized")
	vv.ObsInt("processors", len(r.procs))
	q, ok := r.procs[0].(processors.IDMinimizer)
	vv.Assert(ok, "IDs are minimized")
	vv.Assert(q.Base == 10 != char, "numbers or characters")
	g := []bool{q.KeepStations, q.KeepBlocks, q.KeepFares, q.KeepShapes, q.KeepRoutes, q.KeepTrips, q.KeepLevels, q.KeepPathways, q.KeepServices, q.KeepAgencies, q.KeepAttributions}
	for i := range names {
		if i == len(names)-1 {
			// --keep-ids does not promise anything for attributions
			vv.Assert(vv.Implies(v[i], g[i]), names[i])
			vv.Assert(vv.Implies(g[i], vv.Or(v[i], all)), names[i])
			continue
		}
		vv.Assert(vv.Iff(g[i], vv.Or(v[i], all)), names[i])
	}
	vv.Cover("all", all)
	vv.Cover("characters", char)
}

// zzVerifC26_parse: the options for reading and writing; several feeds.
//
//vv:cases quick=2 thorough=2 timeout=120
func zzVerifC26_parse(c int) {
	names := []string{"default-on-errs", "drop-errs", "check-null-coords", "fix-zip", "show-warnings", "drop-shapes", "keep-additional-fields", "assume-clean-csv", "remove-fillers", "standard-route-types", "google-supported-route-types", "drop-single-stop-trips", "explicit-calendar", "keep-col-order", "unsorted-files"}
	v := make([]bool, len(names))
	for i := range names {
		v[i] = vv.Bool(names[i])
	}
	at := func(n string) bool {
		for i := range names {
			if names[i] == n {
				return v[i]
			}
		}
		panic(n)
	}
	fix := zzSplit(vv.Bool("fix"))
	validate := zzSplit(vv.Bool("validation-mode"))
	repl := zzSplit(vv.Bool("empty-str-repl"))
	two := zzSplit(vv.Bool("two feeds"))
	pre := zzSplit(vv.Bool("prefix"))
	level := vv.Int("zip-compression-level", 0, 9)
	paths := []string{"in"}
	if two {
		paths = []string{"in", "in2"}
	}
	fail := c == 1
	r := zzMain(func() {
		for i, n := range names {
			zzBool(n, v[i])
		}
		zzBool("fix", fix)
		zzBool("validation-mode", validate)
		zzInt("zip-compression-level", level)
		zzStr("output", "the-output")
		if repl {
			zzStr("empty-str-repl", "none")
		}
		if pre {
			zzStr("prefix", "x")
		}
	}, paths, func(feed *gtfsparser.Feed, path, prefix string) error {
		if fail && path == paths[len(paths)-1] {
			return zzErr
		}
		return nil
	}, true)
	vv.Assert(zzMissing == "", "the options exist")
	vv.Cover("fix", fix)
	vv.Cover("validation", validate)
	vv.Cover("writing", fail || r.feed != nil)
	vv.Assert(r.parses == len(paths), "all feeds are read")
	for i := 0; i < r.parses; i++ {
		o := r.opts[i]
		vv.Assert(r.paths[i] == paths[i], "the feeds are read in order")
		if !validate {
			want := ""
			if pre {
				want = "x"
			}
			if two {
				want += []string{"0#", "1#"}[i]
			}
			vv.Assert(r.pres[i] == want, "the prefix of the feed")
		}
		vv.Assert(vv.Iff(o.UseDefValueOnError, vv.And(vv.Or(at("default-on-errs"), fix), !validate)), "-e")
		vv.Assert(vv.Iff(o.DropErroneous, vv.And(vv.Or(at("drop-errs"), fix), !validate)), "-D")
		vv.Assert(vv.Iff(o.CheckNullCoordinates, vv.Or(at("check-null-coords"), fix)), "-n")
		vv.Assert(vv.Iff(o.ZipFix, vv.Or(at("fix-zip"), fix)), "-z")
		vv.Assert(o.DryRun == validate, "-v")
		vv.Assert(vv.Iff(o.ShowWarnings, at("show-warnings")), "-W")
		vv.Assert(vv.Iff(o.DropShapes, at("drop-shapes")), "--drop-shapes")
		vv.Assert(vv.Iff(o.KeepAddFlds, at("keep-additional-fields")), "-F")
		vv.Assert(vv.Iff(o.AssumeCleanCsv, at("assume-clean-csv")), "--assume-clean-csv")
		vv.Assert(vv.Iff(o.RemoveFillers, at("remove-fillers")), "--remove-fillers")
		vv.Assert(vv.Iff(o.UseStandardRouteTypes, at("standard-route-types")), "--standard-route-types")
		vv.Assert(vv.Iff(o.UseGoogleSupportedRouteTypes, at("google-supported-route-types")), "--google-supported-route-types")
		vv.Assert(vv.Iff(o.DropSingleStopTrips, at("drop-single-stop-trips")), "--drop-single-stop-trips")
		es := ""
		if repl {
			es = "none"
		}
		if fix {
			es = "-"
		}
		vv.Assert(o.EmptyStringRepl == es, "-p")
		vv.Assert(len(o.PolygonFilter) == 0 && len(o.MOTFilter) == 0 && len(o.MOTFilterNeg) == 0, "nothing else is filtered")
		vv.Assert(o.DateFilterStart == gtfs.Date{} && o.DateFilterEnd == gtfs.Date{}, "no date is filtered")
	}
	vv.Assert(len(r.procs) == 0, "no processor runs")
	vv.ObsBool("written", r.feed != nil)
	if fail {
		vv.Assert(r.feed == nil && r.exits == 1, "nothing is written after an error")
		return
	}
	if validate {
		vv.Assert(r.feed == nil, "nothing is written when only validating")
		return
	}
	vv.Assert(r.feed != nil && r.out == "the-output", "the output is written to the given path")
	vv.Assert(vv.Iff(r.writer.ExplicitCalendar, at("explicit-calendar")), "--explicit-calendar")
	vv.Assert(vv.Iff(r.writer.KeepColOrder, at("keep-col-order")), "--keep-col-order")
	vv.Assert(vv.Iff(r.writer.Sorted, !at("unsorted-files")), "--unsorted-files")
	vv.Assert(r.writer.ZipCompressionLevel == level, "--zip-compression-level")
}

// zzVerifC26_mots: any bytes as the filter for route types.
//
//vv:cases quick=10 thorough=12 timeout=120 ttimeout=400 nomerge=1
func zzVerifC26_mots(c int) {
	neg := c%2 == 1
	n := []int{0, 1, 2, 3, 5, 4}[c/2] // length
	s := vv.Bytes("mots", n)
	// signs and spaces are none of our business
	for i := 0; i < n; i++ {
		vv.Assume(vv.Or(s[i] == ',', vv.And(s[i] >= '0', s[i] <= '9'), s[i] == 'x', vv.And(s[i] == '-', i == 0)))
	}
	for i := 0; i < n && n > 4; i++ {
		// up to type 32767
		vv.Assume(vv.And(s[i] >= '0', s[i] <= '9'))
	}
	r := zzMain(func() {
		if neg {
			zzStr("drop-mots", s)
		} else {
			zzStr("keep-mots", s)
		}
	}, []string{"in"}, nil, true)
	vv.Assert(zzMissing == "", "the options exist")
	// the numbers
	ok := true
	var nums []int
	cur, dig, sign := 0, 0, 1
	for i := 0; i <= n; i++ {
		if i == n || s[i] == ',' {
			if dig == 0 && sign < 0 {
				ok = false
			}
			if dig > 0 {
				nums = append(nums, cur*sign)
			}
			cur, dig, sign = 0, 0, 1
			continue
		}
		if s[i] == 'x' {
			ok = false
			continue
		}
		if s[i] == '-' {
			sign = -1
			continue
		}
		cur = cur*10 + int(s[i]-'0')
		dig++
	}
	for _, x := range nums {
		ok = vv.And(ok, x <= 32767)
	}
	vv.Cover("accepted", r.feed != nil)
	vv.Cover("rejected", r.feed == nil || n == 0 || n == 5)
	vv.ObsBool("accepted", r.feed != nil)
	vv.Assert(vv.Iff(ok, r.feed != nil), "exactly lists of route types are accepted")
	if r.feed == nil {
		return
	}
	m, o := r.opts[0].MOTFilter, r.opts[0].MOTFilterNeg
	if neg {
		m, o = o, m
	}
	vv.Assert(len(o) == 0, "the other filter stays empty")
	for _, x := range nums {
		vv.Assert(m[int16(x)], "all types are part of the filter")
	}
	for k, v := range m {
		is := false
		for _, x := range nums {
			is = vv.Or(is, x == int(k))
		}
		vv.Assert(vv.Implies(v, is), "no other types are part of the filter")
	}
}

// zzVerifC26_both: route types to keep and to drop, given together.
//
//vv:cases quick=1 thorough=1 timeout=120
func zzVerifC26_both(c int) {
	k1, k2, d1, d2 := vv.Int("keep1", 0, 12), vv.Int("keep2", 0, 12), vv.Int("drop1", 0, 12), vv.Int("drop2", 0, 12)
	r := zzMain(func() {
		zzStr("keep-mots", string([]byte{byte('0' + k1/10), byte('0' + k1%10), ',', byte('0' + k2/10), byte('0' + k2%10)}))
		zzStr("drop-mots", string([]byte{byte('0' + d1/10), byte('0' + d1%10), ',', byte('0' + d2/10), byte('0' + d2%10)}))
	}, []string{"in"}, nil, true)
	vv.Assert(zzMissing == "", "the options exist")
	vv.Assert(r.feed != nil, "lists of route types are accepted")
	for i := 0; i <= 12; i++ {
		vv.Assert(vv.Iff(r.opts[0].MOTFilter[int16(i)], vv.Or(i == k1, i == k2)), "exactly the types to keep are part of their filter")
		vv.Assert(vv.Iff(r.opts[0].MOTFilterNeg[int16(i)], vv.Or(i == d1, i == d2)), "exactly the types to drop are part of their filter")
	}
	vv.Cover("same", k1 == d1)
	vv.Cover("different", k1 != d1)
	vv.ObsInt("types", k1+d2)
}
