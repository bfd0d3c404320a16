package zz_verif

import (
	"github.com/patrickbr/gtfsparser"
	"github.com/patrickbr/gtfsparser/gtfs"
	"github.com/patrickbr/gtfstidy/zz_verif/vv"
)

const meter = 1.0 / 111319.49

// visit makes a trip that visits s; where its stop time points in the end is where
// s has gone.
func visit(f *gtfsparser.Feed, id string, r *gtfs.Route, sv *gtfs.Service, s *gtfs.Stop) *gtfs.Trip {
	t := addTrip(f, id, r, sv)
	t.StopTimes = append(t.StopTimes, stime(s, 1, hms(0), hms(0), 0))
	return t
}

func sameStop(a, b *gtfs.Stop) bool {
	return vv.And(a.Code == b.Code, a.Name == b.Name, a.Desc == b.Desc, a.Zone_id == b.Zone_id, eqUrl(a.Url, b.Url),
		a.Location_type == b.Location_type, a.Timezone.GetTzString() == b.Timezone.GetTzString(), a.Wheelchair_boarding == b.Wheelchair_boarding,
		a.Platform_code == b.Platform_code)
}

func eqLevel(a, b *gtfs.Level) bool {
	if a == nil || b == nil {
		return a == b
	}
	return vv.And(a.Index == b.Index, a.Name == b.Name)
}
