package zz_verif

import "github.com/patrickbr/gtfstidy/zz_verif/vv"

// C07_starts: four (five) equal trips with free starts.
//
//vv:cases quick=4 thorough=9 timeout=300 ttimeout=2500
func C07_starts(c int) { freqStarts(c, true) }

// C07_freqs: three trips with free times and frequencies.
//
//vv:cases quick=3 thorough=9 timeout=300 ttimeout=2500
func C07_freqs(c int) { freqFreqs(c, true) }

// C07_any: equal trips at any second, with any limits.
//
//vv:cases quick=2 thorough=3 timeout=300 ttimeout=2500 nomerge=1
func C07_any(c int) { freqAny(c, true) }

// C07_windows: trips and frequencies at any second.
//
//vv:cases quick=2 thorough=6 timeout=300 ttimeout=2500 nomerge=1
func C07_windows(c int) { freqWindows(c, true) }

var _ = vv.Tier
