package zz_verif

import "github.com/patrickbr/gtfstidy/zz_verif/vv"

// C06_starts: four equal trips with free starts, or five of which all but the first
// are in order; two trips of another route.
//
//vv:cases quick=4 thorough=9 timeout=300 ttimeout=2500
func C06_starts(c int) { freqStarts(c, false) }

// C06_varied: three (four) trips at regular times, of which some differ in an attribute.
//
//vv:cases quick=4 thorough=12 timeout=300 ttimeout=2500
func C06_varied(c int) { freqVaried(c, false) }

// C06_freqs: three trips with free times and frequencies.
//
//vv:cases quick=3 thorough=9 timeout=300 ttimeout=2500
func C06_freqs(c int) { freqFreqs(c, false) }

var _ = vv.Tier

// C06_any: equal trips at any second, with any limits.
//
//vv:cases quick=2 thorough=3 timeout=300 ttimeout=2500 nomerge=1
func C06_any(c int) { freqAny(c, false) }

// C06_windows: trips and frequencies at any second.
//
//vv:cases quick=2 thorough=6 timeout=300 ttimeout=2500 nomerge=1
func C06_windows(c int) { freqWindows(c, false) }
