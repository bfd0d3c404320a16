package zz_verif

import (
	"github.com/patrickbr/gtfstidy/zz_verif/vv"
)

// C23_workers: every processor on the same feed with one and with more CPUs,
// its workers in either order, watched for accesses without order.
//
//vv:cases quick=28 thorough=84 timeout=300 ttimeout=2000 nomerge=1
func C23_workers(c int) {
	p := zzProcs[c%28]
	may := p.bits
	if vv.Tier() == 0 {
		may &^= rLonely | rOdd | rNoTimes | rNoAgency | rNoShape
	} else if c >= 28 {
		may = rAll &^ (p.bits | rDupAg | rDupSh)
	}
	r, b := rich(may, 0)
	cpu := []int{2, 8, 3}[vv.Split(vv.Int("cpu", 0, 1+vv.Tier()))]
	sched := vv.Split(vv.Int("sched", 0, 1))
	one, _ := rich(0, b)
	vv.MapOrder(c / 56)
	vv.SetCPU(1)
	p.p().Run(one.f)
	wants := [][]string{dump(one.f)}
	vv.SetCPU(cpu)
	vv.Sched(sched)
	vv.Race()
	p.p().Run(r.f)
	gots := [][]string{dump(r.f)}
	// iteration orders of maps are random in a native run: collect what may result
	for i := 0; !vv.Symbolic() && i < 60; i++ {
		x, _ := rich(0, b)
		vv.SetCPU(1)
		p.p().Run(x.f)
		wants = append(wants, dump(x.f))
		y, _ := rich(0, b)
		vv.SetCPU(cpu)
		p.p().Run(y.f)
		gots = append(gots, dump(y.f))
	}
	vv.ObsInt("bits", b)
	same := false
	for _, want := range wants {
		for _, got := range gots {
			ok := len(want) == len(got)
			for i := 0; ok && i < len(want); i++ {
				// new IDs depend on the iteration orders
				ok = want[i] == got[i] || c%28 >= 26 && !vv.Symbolic()
			}
			same = same || ok
		}
	}
	vv.Assert(same, "the result does not depend on the number of CPUs")
}
