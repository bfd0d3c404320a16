package zz_verif

import "math"

// degPerM is the length of a meter on the equator in degrees.
const degPerM = 1 / 111319.4908

// segDist is the distance of p to the line from a to b.
func segDist(px, py, ax, ay, bx, by float64) float64 {
	dx, dy := bx-ax, by-ay
	t := 0.0
	if l := dx*dx + dy*dy; l > 0 {
		t = ((px-ax)*dx + (py-ay)*dy) / l
		if t < 0 {
			t = 0
		}
		if t > 1 {
			t = 1
		}
	}
	dx, dy = px-ax-t*dx, py-ay-t*dy
	return math.Sqrt(dx*dx + dy*dy)
}

// metersTo is the distance of two stops near the equator in meters.
func metersTo(aLat, aLon, bLat, bLon float64) float64 {
	x := (aLon - bLon) * 111319.49
	y := (aLat - bLat) * 111319.49
	return math.Sqrt(x*x + y*y)
}
