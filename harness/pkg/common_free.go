package zz_verif

import (
	"github.com/patrickbr/gtfsparser"
	"github.com/patrickbr/gtfstidy/zz_verif/vv"
)

const (
	freePlatform = 1 << iota
	freeBoarding // of stop times whose rules were not set before
)

// free gives free values to the attributes of stops, routes, trips, and stop times
// that should have no influence on what happens to them.
func free(f *gtfsparser.Feed, what int) {
	for id, s := range f.Stops {
		p := "~" + id + "/"
		s.Code = vv.Str(p+"code", "", "c")
		s.Desc = vv.Str(p+"desc", "", "d")
		s.Zone_id = vv.Str(p+"zone", "", "z")
		s.Wheelchair_boarding = int8(vv.Int(p+"wheel", 0, 2))
		if what&freePlatform != 0 {
			s.Platform_code = vv.Str(p+"plat", "", "1", "2")
		}
	}
	for id, r := range f.Routes {
		p := "~" + id + "/"
		r.Long_name = vv.Str(p+"long", "", "l")
		r.Desc = vv.Str(p+"rdesc", "", "d")
		r.Color = vv.Str(p+"color", "", "FF0000")
		r.Sort_order = vv.Int(p+"sort", 0, 2)
		r.Continuous_pickup = int8(vv.Int(p+"cpick", 0, 3))
		r.Continuous_drop_off = int8(vv.Int(p+"cdrop", 0, 3))
	}
	for id, t := range f.Trips {
		p := "~" + id + "/"
		t.Direction_id = int8(vv.Int(p+"dir", 0, 1))
		t.Wheelchair_accessible = int8(vv.Int(p+"acc", 0, 2))
		t.Bikes_allowed = int8(vv.Int(p+"bikes", 0, 2))
		t.Block_id = pickStrP(p+"block", "b", "c")
		t.Short_name = pickStrP(p+"short", "1", "2")
		if what&freeBoarding != 0 {
			for i := range t.StopTimes {
				st := &t.StopTimes[i]
				st.SetPickup_type(uint8(vv.Int(vv.N(p+"pick", i), 0, 3)))
				st.SetDrop_off_type(uint8(vv.Int(vv.N(p+"drop", i), 0, 3)))
				st.SetContinuous_pickup(uint8(vv.Int(vv.N(p+"cpick", i), 0, 3)))
				st.SetContinuous_drop_off(uint8(vv.Int(vv.N(p+"cdrop", i), 0, 3)))
			}
		}
	}
}
