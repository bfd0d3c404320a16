package zz_verif

import (
	"github.com/patrickbr/gtfstidy/zz_verif/vv"
)

// C11_closed: every processor on a feed with all kinds of entities and
// references, many of which are equal to others.
//
//vv:cases quick=28 thorough=84 timeout=200 ttimeout=1500 nomerge=1
func C11_closed(c int) {
	p := zzProcs[c%28]
	r, b := rich(p.bits, 0)
	vv.MapOrder(vv.Split(vv.Int("order", 0, 1)))
	vv.SetCPU(2)
	closed(r.f)
	p.p().Run(r.f)
	vv.ObsInt("bits", b)
	closed(r.f)
}
