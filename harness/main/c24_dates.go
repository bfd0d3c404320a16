package main

import (
	"github.com/patrickbr/gtfsparser/gtfs"
	"github.com/patrickbr/gtfstidy/zz_verif/vv"
)

// zzVerifC24_date: any bytes as the start or the end date.
//
//vv:cases quick=13 thorough=24 timeout=300
func zzVerifC24_date(c int) {
	n := []int{8, 7, 9, 8, 1, 6, 10, 8, 12, 2, 3, 4, 5}[c%13]
	end := c == 3 || c >= 13
	if c >= 13 {
		n = c
	}
	zzDate("", n, end, c == 7)
}

// zzVerifC24_year: any month and day of a year.
//
//vv:cases quick=8 thorough=8 timeout=300
func zzVerifC24_year(c int) {
	zzDate([]string{"1900", "2000", "2023", "2024", "2100", "2155", "2156", "1899"}[c], 4, c%2 == 0, c%4 < 2)
}

func zzDate(year string, n int, end, both bool) {
	s := year + vv.Bytes("date", n)
	n = len(s)
	r := zzMain(func() {
		x, y := "date-start", "date-end"
		if end {
			x, y = y, x
		}
		zzStr(x, s)
		if both {
			zzStr(y, "20240229")
		}
	}, []string{"in"}, nil, true)
	vv.Assert(zzMissing == "", "the options exist")
	y, m, d, ok := 0, 0, 0, n == 8
	if ok {
		dig := func(i int) int { return int(s[i] - '0') }
		for i := 0; i < 8; i++ {
			ok = vv.And(ok, s[i] >= '0', s[i] <= '9')
		}
		y = dig(0)*1000 + dig(1)*100 + dig(2)*10 + dig(3)
		m = dig(4)*10 + dig(5)
		d = dig(6)*10 + dig(7)
		leap := vv.And(y%4 == 0, vv.Or(y%100 != 0, y%400 == 0))
		days := vv.IteInt(m == 2, vv.IteInt(leap, 29, 28), vv.IteInt(vv.Or(m == 4, m == 6, m == 9, m == 11), 30, 31))
		ok = vv.And(ok, y >= 1900, y <= 2155, m >= 1, m <= 12, d >= 1, d <= days)
	}
	vv.Cover("accepted", n != 8 || year != "" || r.feed != nil)
	vv.Cover("rejected", r.feed == nil)
	vv.ObsBool("accepted", r.feed != nil)
	vv.Assert(vv.Iff(ok, r.feed != nil), "exactly the dates are accepted")
	vv.Assert((r.parses > 0) == (r.feed != nil), "nothing is read with a wrong date")
	if r.feed == nil {
		return
	}
	a, b := r.opts[0].DateFilterStart, r.opts[0].DateFilterEnd
	if end {
		a, b = b, a
	}
	vv.Assert(vv.And(int(a.Year()) == y, int(a.Month()) == m, int(a.Day()) == d), "the filter is the date")
	if both {
		vv.Assert(b == gtfs.NewDate(29, 2, 2024), "the other filter is the other date")
	} else {
		vv.Assert(b == gtfs.Date{}, "the other filter stays empty")
	}
}
