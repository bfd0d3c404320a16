From d14ce7314338c389637b925935bc9c15a093792b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:16 +0000
Subject: [PATCH 01/52] fix: do not merge routes with different sort orders

---
 processors/routeduplicateremover.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/processors/routeduplicateremover.go b/processors/routeduplicateremover.go
index 634690e..dd4bde9 100755
--- a/processors/routeduplicateremover.go
+++ b/processors/routeduplicateremover.go
@@ -284,5 +284,6 @@ func (rdr RouteDuplicateRemover) routeEquals(a *gtfs.Route, b *gtfs.Route, feed
 		a.Continuous_pickup == b.Continuous_pickup &&
 		((a.Url != nil && b.Url != nil && a.Url.String() == b.Url.String()) || a.Url == b.Url) &&
 		a.Color == b.Color &&
-		a.Text_color == b.Text_color
+		a.Text_color == b.Text_color &&
+		a.Sort_order == b.Sort_order
 }
-- 
2.43.0


From 933aec8e5356dced33f6eefa7de2ccecae9ae4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:32 +0000
Subject: [PATCH 02/52] fix: keep route-specific transfers of merged routes

---
 processors/routeduplicateremover.go | 46 +++++++++++++++++++++++++++--
 processors/util.go                  | 17 +++++++++++
 2 files changed, 60 insertions(+), 3 deletions(-)

diff --git a/processors/routeduplicateremover.go b/processors/routeduplicateremover.go
index dd4bde9..cc9dea2 100755
--- a/processors/routeduplicateremover.go
+++ b/processors/routeduplicateremover.go
@@ -36,6 +36,9 @@ func (rdr RouteDuplicateRemover) Run(feed *gtfsparser.Feed) {
 	// number of processors for efficient search on collisions
 	chunks := rdr.getRouteChunks(feed)
 
+	// maps removed routes to the route they have been merged with
+	merged := make(map[*gtfs.Route]*gtfs.Route)
+
 	for _, r := range feed.Routes {
 		if _, ok := proced[r]; ok {
 			continue
@@ -45,7 +48,12 @@ func (rdr RouteDuplicateRemover) Run(feed *gtfsparser.Feed) {
 		eqRoutes := rdr.getEquivalentRoutes(r, feed, chunks[hash])
 
 		if len(eqRoutes) > 0 {
-			rdr.combineRoutes(feed, append(eqRoutes, r), trips)
+			ref := rdr.combineRoutes(feed, append(eqRoutes, r), trips)
+
+			merged[r] = ref
+			for _, er := range eqRoutes {
+				merged[er] = ref
+			}
 
 			for _, r := range eqRoutes {
 				proced[r] = true
@@ -55,6 +63,11 @@ func (rdr RouteDuplicateRemover) Run(feed *gtfsparser.Feed) {
 		}
 	}
 
+	// re-target transfers that are specific to a removed route
+	if len(merged) > 0 {
+		rdr.retargetTransfers(feed, merged)
+	}
+
 	// delete transfers
 	feed.CleanTransfers()
 
@@ -165,8 +178,33 @@ func (rdr RouteDuplicateRemover) fareRulesEqual(attr *gtfs.FareAttribute, a *gtf
 	return len(rulesA) == 0 && len(rulesB) == 0
 }
 
-// Combine a slice of equal routes into a single route
-func (rdr RouteDuplicateRemover) combineRoutes(feed *gtfsparser.Feed, routes []*gtfs.Route, trips map[*gtfs.Route][]*gtfs.Trip) {
+// Let transfers referencing a merged route reference the route it has been merged with
+func (rdr RouteDuplicateRemover) retargetTransfers(feed *gtfsparser.Feed, merged map[*gtfs.Route]*gtfs.Route) {
+	keys := make([]gtfs.TransferKey, 0)
+
+	for tk := range feed.Transfers {
+		keys = append(keys, tk)
+	}
+
+	for _, tk := range keys {
+		tkNew := tk
+
+		if ref, ok := merged[tk.From_route]; ok {
+			tkNew.From_route = ref
+		}
+
+		if ref, ok := merged[tk.To_route]; ok {
+			tkNew.To_route = ref
+		}
+
+		if tkNew != tk {
+			moveTransfer(feed, tk, tkNew)
+		}
+	}
+}
+
+// Combine a slice of equal routes into a single route, returns this route
+func (rdr RouteDuplicateRemover) combineRoutes(feed *gtfsparser.Feed, routes []*gtfs.Route, trips map[*gtfs.Route][]*gtfs.Trip) *gtfs.Route {
 	// heuristic: use the route with the shortest ID as 'reference'
 	ref := routes[0]
 
@@ -213,6 +251,8 @@ func (rdr RouteDuplicateRemover) combineRoutes(feed *gtfsparser.Feed, routes []*
 
 		feed.DeleteRoute(r.Id)
 	}
+
+	return ref
 }
 
 func (rdr RouteDuplicateRemover) getRouteChunks(feed *gtfsparser.Feed) map[uint32][][]*gtfs.Route {
diff --git a/processors/util.go b/processors/util.go
index f2899d8..1d50731 100755
--- a/processors/util.go
+++ b/processors/util.go
@@ -7,6 +7,7 @@
 package processors
 
 import (
+	"github.com/patrickbr/gtfsparser"
 	gtfs "github.com/patrickbr/gtfsparser/gtfs"
 	"math"
 )
@@ -308,3 +309,19 @@ func boolsToBytes(t []bool) []byte {
 	}
 	return b
 }
+
+// Move a transfer and its additional fields to a new key. If there already
+// is a transfer with the new key, this transfer is kept.
+func moveTransfer(feed *gtfsparser.Feed, from gtfs.TransferKey, to gtfs.TransferKey) {
+	if _, ok := feed.Transfers[to]; !ok {
+		feed.Transfers[to] = feed.Transfers[from]
+
+		for k := range feed.TransfersAddFlds {
+			if v, ok := feed.TransfersAddFlds[k][from]; ok {
+				feed.TransfersAddFlds[k][to] = v
+			}
+		}
+	}
+
+	feed.DeleteTransfer(from)
+}
-- 
2.43.0


From 1aff26863ad891962d7b7cab7234828392fe429b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:32 +0000
Subject: [PATCH 03/52] fix: keep all attributes of trips copied by
 --remove-cal-dates

---
 processors/servicecaldatesremover.go | 39 +++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/processors/servicecaldatesremover.go b/processors/servicecaldatesremover.go
index c1ff2c2..b29df8d 100755
--- a/processors/servicecaldatesremover.go
+++ b/processors/servicecaldatesremover.go
@@ -59,20 +59,18 @@ func (sm ServiceCalDatesRem) Run(feed *gtfsparser.Feed) {
 
 			for i := 1; i < len(val); i++ {
 				newTrip := new(gtfs.Trip)
+				*newTrip = *trip
 
+				newTrip.Id = sm.freeTripId(feed, trip.Id)
 				newTrip.Service = val[i]
-				newTrip.Bikes_allowed = trip.Bikes_allowed
-				newTrip.Block_id = trip.Block_id
-				newTrip.Direction_id = trip.Direction_id
-				newTrip.Headsign = trip.Headsign
+				newTrip.StopTimes = append([]gtfs.StopTime(nil), trip.StopTimes...)
 
-				newTrip.Id = sm.freeTripId(feed, trip.Id)
+				if trip.Frequencies != nil {
+					freqs := append([]*gtfs.Frequency(nil), *trip.Frequencies...)
+					newTrip.Frequencies = &freqs
+				}
 
-				newTrip.Route = trip.Route
-				newTrip.Shape = trip.Shape
-				newTrip.Short_name = trip.Short_name
-				newTrip.Wheelchair_accessible = trip.Wheelchair_accessible
-				newTrip.StopTimes = append([]gtfs.StopTime(nil), trip.StopTimes...)
+				sm.copyTripAddFlds(feed, trip.Id, newTrip.Id)
 
 				newTrips = append(newTrips, newTrip)
 			}
@@ -210,6 +208,27 @@ func (sm *ServiceCalDatesRem) getBlocks(feed *gtfsparser.Feed, s *gtfs.Service)
 	return ret2
 }
 
+// copy the additional fields of a trip to a copy of this trip
+func (sm *ServiceCalDatesRem) copyTripAddFlds(feed *gtfsparser.Feed, from string, to string) {
+	for _, v := range feed.TripsAddFlds {
+		if val, ok := v[from]; ok {
+			v[to] = val
+		}
+	}
+
+	for _, v := range feed.StopTimesAddFlds {
+		if val, ok := v[from]; ok {
+			v[to] = val
+		}
+	}
+
+	for _, v := range feed.FrequenciesAddFlds {
+		if val, ok := v[from]; ok {
+			v[to] = val
+		}
+	}
+}
+
 // get a free trip id with the given prefix
 func (sm *ServiceCalDatesRem) freeTripId(feed *gtfsparser.Feed, prefix string) string {
 	for sm.tidc < ^uint(0) {
-- 
2.43.0


From 0f0a4fcdcea16189d366ccae95aee0726347ebfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:46 +0000
Subject: [PATCH 04/52] fix: keep IDs generated by --remove-cal-dates unique

---
 processors/servicecaldatesremover.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/processors/servicecaldatesremover.go b/processors/servicecaldatesremover.go
index b29df8d..93c8245 100755
--- a/processors/servicecaldatesremover.go
+++ b/processors/servicecaldatesremover.go
@@ -20,6 +20,10 @@ type ServiceCalDatesRem struct {
 	ServiceMinimizer
 	tidc uint
 	sidc uint
+
+	// ids handed out, but not yet in the feed
+	tids map[string]bool
+	sids map[string]bool
 }
 
 // Run this ServiceMinimizer on some feed
@@ -27,6 +31,9 @@ func (sm ServiceCalDatesRem) Run(feed *gtfsparser.Feed) {
 	fmt.Fprintf(os.Stdout, "Removing calendar_dates.txt entries... ")
 	calBefore, datesBefore := sm.countServices(feed)
 
+	sm.tids = make(map[string]bool)
+	sm.sids = make(map[string]bool)
+
 	newServices := make(map[*gtfs.Service][]*gtfs.Service, 0)
 
 	for _, s := range feed.Services {
@@ -234,7 +241,8 @@ func (sm *ServiceCalDatesRem) freeTripId(feed *gtfsparser.Feed, prefix string) s
 	for sm.tidc < ^uint(0) {
 		sm.tidc += 1
 		tid := prefix + fmt.Sprint(sm.tidc)
-		if _, ok := feed.Trips[tid]; !ok {
+		if _, ok := feed.Trips[tid]; !ok && !sm.tids[tid] {
+			sm.tids[tid] = true
 			return tid
 		}
 	}
@@ -246,7 +254,8 @@ func (sm *ServiceCalDatesRem) freeServiceId(feed *gtfsparser.Feed, prefix string
 	for sm.sidc < ^uint(0) {
 		sm.sidc += 1
 		sid := prefix + fmt.Sprint(sm.sidc)
-		if _, ok := feed.Services[sid]; !ok {
+		if _, ok := feed.Services[sid]; !ok && !sm.sids[sid] {
+			sm.sids[sid] = true
 			return sid
 		}
 	}
-- 
2.43.0


From 0ddf058991193a17b53f4cb8b27003ce7eca545c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:19 +0000
Subject: [PATCH 05/52] fix: do not overwrite services of the same week in
 different years with --non-overlapping-services

---
 processors/servicenonoverlapper.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/processors/servicenonoverlapper.go b/processors/servicenonoverlapper.go
index 7d6c19a..5d4664e 100755
--- a/processors/servicenonoverlapper.go
+++ b/processors/servicenonoverlapper.go
@@ -134,6 +134,12 @@ func (sm ServiceNonOverlapper) Run(feed *gtfsparser.Feed) {
 				}
 			}
 
+			// the same week may be served in different years
+			baseId := id
+			for n := 2; feed.Services[id] != nil; n++ {
+				id = baseId + " #" + strconv.Itoa(n)
+			}
+
 			exceptions := make(map[gtfs.Date]bool)
 			for _, d := range t.Dates {
 				exceptions[d] = true
-- 
2.43.0


From 8a3224f54eee8e51cce0faa6c037176b49160cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:19:54 +0000
Subject: [PATCH 06/52] fix: do not merge trips with different directions

---
 processors/tripduplicateremover.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/processors/tripduplicateremover.go b/processors/tripduplicateremover.go
index a62ecaa..b649127 100755
--- a/processors/tripduplicateremover.go
+++ b/processors/tripduplicateremover.go
@@ -436,6 +436,7 @@ func (m *TripDuplicateRemover) tripAttrEq(a *gtfs.Trip, b *gtfs.Trip, feed *gtfs
 
 	return addFldsEq && a.Wheelchair_accessible == b.Wheelchair_accessible &&
 		a.Bikes_allowed == b.Bikes_allowed &&
+		a.Direction_id == b.Direction_id &&
 		(a.Short_name == b.Short_name || (a.Short_name != nil && b.Short_name != nil && *a.Short_name == *b.Short_name)) &&
 		(a.Headsign == b.Headsign || (m.Fuzzy && (a.Headsign == nil || b.Headsign == nil)) || (a.Headsign != nil && b.Headsign != nil && *a.Headsign == *b.Headsign || (m.Fuzzy && (strings.Contains(*b.Headsign, *a.Headsign) || strings.Contains(*a.Headsign, *b.Headsign))))) &&
 		(a.Block_id == b.Block_id || (a.Block_id != nil && b.Block_id != nil && *a.Block_id == *b.Block_id))
-- 
2.43.0


From 7da75a7d7e51f970df647ce4198435e8e11eeeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:21:34 +0000
Subject: [PATCH 07/52] fix: do not merge trips with different boarding rules
 or stop headsigns

---
 processors/tripduplicateremover.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/processors/tripduplicateremover.go b/processors/tripduplicateremover.go
index b649127..062e46d 100755
--- a/processors/tripduplicateremover.go
+++ b/processors/tripduplicateremover.go
@@ -378,9 +378,13 @@ func (m *TripDuplicateRemover) tripStEq(a *gtfs.Trip, b *gtfs.Trip) bool {
 
 	// check departure times
 	for i, aSt := range a.StopTimes {
-		// NOTE: we don't check for the additional stop time attributes here
 		bSt := b.StopTimes[i]
 
+		// NOTE: in fuzzy mode, we don't check for the additional stop time attributes here
+		if !m.Fuzzy && !m.stopTimeAttrEq(&aSt, &bSt) {
+			return false
+		}
+
 		if !m.stopEq(aSt.Stop(), bSt.Stop()) {
 			return false
 		}
@@ -403,6 +407,15 @@ func (m *TripDuplicateRemover) tripStEq(a *gtfs.Trip, b *gtfs.Trip) bool {
 	return true
 }
 
+// Check if the boarding rules and headsigns of two stop times are equal
+func (m *TripDuplicateRemover) stopTimeAttrEq(a *gtfs.StopTime, b *gtfs.StopTime) bool {
+	return a.Pickup_type() == b.Pickup_type() &&
+		a.Drop_off_type() == b.Drop_off_type() &&
+		a.Continuous_pickup() == b.Continuous_pickup() &&
+		a.Continuous_drop_off() == b.Continuous_drop_off() &&
+		(a.Headsign() == b.Headsign() || (a.Headsign() != nil && b.Headsign() != nil && *a.Headsign() == *b.Headsign()))
+}
+
 // Check if trip child is attribute equal to another trip
 func (m *TripDuplicateRemover) tripAttrEq(a *gtfs.Trip, b *gtfs.Trip, feed *gtfsparser.Feed) bool {
 	if !m.Fuzzy && a.Route != b.Route {
-- 
2.43.0


From b23e7f502f4a3ed0a1d242311a545c4644545cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:25 +0000
Subject: [PATCH 08/52] fix: keep transfers of merged stops consistent

---
 processors/stopduplicateremover.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/processors/stopduplicateremover.go b/processors/stopduplicateremover.go
index 78c90ff..ac8d67d 100755
--- a/processors/stopduplicateremover.go
+++ b/processors/stopduplicateremover.go
@@ -211,12 +211,17 @@ func (sdr StopDuplicateRemover) combineStops(feed *gtfsparser.Feed, stops []*gtf
 				tk_new.To_stop = ref
 			}
 
-			if _, ok := feed.Transfers[tk_new]; !ok {
-				feed.Transfers[tk_new] = feed.Transfers[tk]
-				delete(feed.Transfers, tk)
+			// the transfer may already have been moved while merging its other stop
+			if _, ok := feed.Transfers[tk]; !ok || tk_new == tk {
+				continue
+			}
+
+			moveTransfer(feed, tk, tk_new)
 
-				// add new transfer to transfer refs
-				transfers[ref] = append(transfers[ref], tk_new)
+			// add new transfer to transfer refs
+			transfers[tk_new.From_stop] = append(transfers[tk_new.From_stop], tk_new)
+			if tk_new.From_stop != tk_new.To_stop {
+				transfers[tk_new.To_stop] = append(transfers[tk_new.To_stop], tk_new)
 			}
 		}
 
-- 
2.43.0


From 572ba2f40d5a7346dd5a4236465bee1b47503de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:27 +0000
Subject: [PATCH 09/52] fix: merge stops with equal URLs

---
 processors/stopduplicateremover.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/processors/stopduplicateremover.go b/processors/stopduplicateremover.go
index ac8d67d..4e13a66 100755
--- a/processors/stopduplicateremover.go
+++ b/processors/stopduplicateremover.go
@@ -399,7 +399,7 @@ func (sdr StopDuplicateRemover) stopEquals(a *gtfs.Stop, b *gtfs.Stop, feed *gtf
 			((distSApprox(a, b) <= sdr.DistThresholdStop/2 && parentsEqual) || a.Name == b.Name) &&
 			a.Desc == b.Desc &&
 			a.Zone_id == b.Zone_id &&
-			(a.Url == b.Url || a.Url == nil || b.Url == nil) &&
+			(a.Url == b.Url || a.Url == nil || b.Url == nil || a.Url.String() == b.Url.String()) &&
 			a.Location_type == b.Location_type &&
 			a.Parent_station == b.Parent_station &&
 			a.Timezone.Equals(b.Timezone) &&
@@ -413,7 +413,7 @@ func (sdr StopDuplicateRemover) stopEquals(a *gtfs.Stop, b *gtfs.Stop, feed *gtf
 		a.Name == b.Name &&
 		a.Desc == b.Desc &&
 		a.Zone_id == b.Zone_id &&
-		a.Url == b.Url &&
+		(a.Url == b.Url || (a.Url != nil && b.Url != nil && a.Url.String() == b.Url.String())) &&
 		a.Location_type == b.Location_type &&
 		a.Parent_station == b.Parent_station &&
 		a.Timezone.Equals(b.Timezone) &&
-- 
2.43.0


From f9e0f73d84efbbe0e238c8b6cd72cb1243816932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:28 +0000
Subject: [PATCH 10/52] fix: keep additional fields attached to their entities
 when minimizing IDs

---
 processors/idminimizer.go | 110 ++++++++++++++++++++------------------
 1 file changed, 57 insertions(+), 53 deletions(-)

diff --git a/processors/idminimizer.go b/processors/idminimizer.go
index a120d63..8fd7deb 100755
--- a/processors/idminimizer.go
+++ b/processors/idminimizer.go
@@ -140,25 +140,21 @@ func (minimizer IDMinimizer) minimizeTripIds(feed *gtfsparser.Feed) {
 	var idCount int64 = 1
 
 	newMap := make(map[string]*gtfs.Trip)
+	newIds := make(map[string]string)
 	for _, t := range feed.Trips {
 		oldId := t.Id
 		newId := minimizer.Prefix + strconv.FormatInt(idCount, minimizer.Base)
 		t.Id = newId
 		idCount = idCount + 1
 		newMap[t.Id] = t
-
-		// update additional fields
-		for k := range feed.TripsAddFlds {
-			feed.TripsAddFlds[k][newId] = feed.TripsAddFlds[k][oldId]
-			delete(feed.TripsAddFlds[k], oldId)
-		}
-
-		for k := range feed.StopTimesAddFlds {
-			feed.StopTimesAddFlds[k][newId] = feed.StopTimesAddFlds[k][oldId]
-			delete(feed.StopTimesAddFlds[k], oldId)
-		}
+		newIds[oldId] = newId
 	}
 
+	// update additional fields
+	moveAddFlds(feed.TripsAddFlds, newIds)
+	moveAddFlds(feed.StopTimesAddFlds, newIds)
+	moveAddFlds(feed.FrequenciesAddFlds, newIds)
+
 	feed.Trips = newMap
 }
 
@@ -167,20 +163,19 @@ func (minimizer IDMinimizer) minimizeShapeIds(feed *gtfsparser.Feed) {
 	var idCount int64 = 1
 
 	newMap := make(map[string]*gtfs.Shape)
+	newIds := make(map[string]string)
 	for _, s := range feed.Shapes {
 		oldId := s.Id
 		newId := minimizer.Prefix + strconv.FormatInt(idCount, minimizer.Base)
 		s.Id = newId
 		idCount = idCount + 1
 		newMap[s.Id] = s
-
-		// update additional fields
-		for k := range feed.ShapesAddFlds {
-			feed.ShapesAddFlds[k][newId] = feed.ShapesAddFlds[k][oldId]
-			delete(feed.ShapesAddFlds[k], oldId)
-		}
+		newIds[oldId] = newId
 	}
 
+	// update additional fields
+	moveAddFlds(feed.ShapesAddFlds, newIds)
+
 	feed.Shapes = newMap
 }
 
@@ -189,20 +184,19 @@ func (minimizer IDMinimizer) minimizeRouteIds(feed *gtfsparser.Feed) {
 	var idCount int64 = 1
 
 	newMap := make(map[string]*gtfs.Route)
+	newIds := make(map[string]string)
 	for _, r := range feed.Routes {
 		oldId := r.Id
 		newId := minimizer.Prefix + strconv.FormatInt(idCount, minimizer.Base)
 		r.Id = newId
 		idCount = idCount + 1
 		newMap[r.Id] = r
-
-		// update additional fields
-		for k := range feed.RoutesAddFlds {
-			feed.RoutesAddFlds[k][newId] = feed.RoutesAddFlds[k][oldId]
-			delete(feed.RoutesAddFlds[k], oldId)
-		}
+		newIds[oldId] = newId
 	}
 
+	// update additional fields
+	moveAddFlds(feed.RoutesAddFlds, newIds)
+
 	feed.Routes = newMap
 }
 
@@ -225,20 +219,19 @@ func (minimizer IDMinimizer) minimizeStopIds(feed *gtfsparser.Feed) {
 	var idCount int64 = 1
 
 	newMap := make(map[string]*gtfs.Stop)
+	newIds := make(map[string]string)
 	for _, s := range feed.Stops {
 		oldId := s.Id
 		newId := minimizer.Prefix + strconv.FormatInt(idCount, minimizer.Base)
 		s.Id = newId
 		idCount = idCount + 1
 		newMap[s.Id] = s
-
-		// update additional fields
-		for k := range feed.StopsAddFlds {
-			feed.StopsAddFlds[k][newId] = feed.StopsAddFlds[k][oldId]
-			delete(feed.StopsAddFlds[k], oldId)
-		}
+		newIds[oldId] = newId
 	}
 
+	// update additional fields
+	moveAddFlds(feed.StopsAddFlds, newIds)
+
 	feed.Stops = newMap
 }
 
@@ -285,20 +278,19 @@ func (minimizer IDMinimizer) minimizeAgencyIds(feed *gtfsparser.Feed) {
 	var idCount int64 = 1
 
 	newMap := make(map[string]*gtfs.Agency)
+	newIds := make(map[string]string)
 	for _, a := range feed.Agencies {
 		oldId := a.Id
 		newId := minimizer.Prefix + strconv.FormatInt(idCount, minimizer.Base)
 		a.Id = newId
 		idCount = idCount + 1
 		newMap[a.Id] = a
-
-		// update additional fields
-		for k := range feed.AgenciesAddFlds {
-			feed.AgenciesAddFlds[k][newId] = feed.AgenciesAddFlds[k][oldId]
-			delete(feed.AgenciesAddFlds[k], oldId)
-		}
+		newIds[oldId] = newId
 	}
 
+	// update additional fields
+	moveAddFlds(feed.AgenciesAddFlds, newIds)
+
 	feed.Agencies = newMap
 }
 
@@ -307,20 +299,20 @@ func (minimizer IDMinimizer) minimizeFareIds(feed *gtfsparser.Feed) {
 	var idCount int64 = 1
 
 	newMap := make(map[string]*gtfs.FareAttribute)
+	newIds := make(map[string]string)
 	for _, a := range feed.FareAttributes {
 		oldId := a.Id
 		newId := minimizer.Prefix + strconv.FormatInt(idCount, minimizer.Base)
 		a.Id = newId
 		idCount = idCount + 1
 		newMap[a.Id] = a
-
-		// update additional fields
-		for k := range feed.FareAttributesAddFlds {
-			feed.FareAttributesAddFlds[k][newId] = feed.FareAttributesAddFlds[k][oldId]
-			delete(feed.FareAttributesAddFlds[k], oldId)
-		}
+		newIds[oldId] = newId
 	}
 
+	// update additional fields
+	moveAddFlds(feed.FareAttributesAddFlds, newIds)
+	moveAddFlds(feed.FareRulesAddFlds, newIds)
+
 	feed.FareAttributes = newMap
 }
 
@@ -329,20 +321,19 @@ func (minimizer IDMinimizer) minimizePathwayIds(feed *gtfsparser.Feed) {
 	var idCount int64 = 1
 
 	newMap := make(map[string]*gtfs.Pathway)
+	newIds := make(map[string]string)
 	for _, a := range feed.Pathways {
 		oldId := a.Id
 		newId := minimizer.Prefix + strconv.FormatInt(idCount, minimizer.Base)
 		a.Id = newId
 		idCount = idCount + 1
 		newMap[a.Id] = a
-
-		// update additional fields
-		for k := range feed.PathwaysAddFlds {
-			feed.PathwaysAddFlds[k][newId] = feed.PathwaysAddFlds[k][oldId]
-			delete(feed.PathwaysAddFlds[k], oldId)
-		}
+		newIds[oldId] = newId
 	}
 
+	// update additional fields
+	moveAddFlds(feed.PathwaysAddFlds, newIds)
+
 	feed.Pathways = newMap
 }
 
@@ -351,19 +342,32 @@ func (minimizer IDMinimizer) minimizeLevelIds(feed *gtfsparser.Feed) {
 	var idCount int64 = 1
 
 	newMap := make(map[string]*gtfs.Level)
+	newIds := make(map[string]string)
 	for _, a := range feed.Levels {
 		oldId := a.Id
 		newId := minimizer.Prefix + strconv.FormatInt(idCount, minimizer.Base)
 		a.Id = newId
 		idCount = idCount + 1
 		newMap[a.Id] = a
-
-		// update additional fields
-		for k := range feed.LevelsAddFlds {
-			feed.LevelsAddFlds[k][newId] = feed.LevelsAddFlds[k][oldId]
-			delete(feed.LevelsAddFlds[k], oldId)
-		}
+		newIds[oldId] = newId
 	}
 
+	// update additional fields
+	moveAddFlds(feed.LevelsAddFlds, newIds)
+
 	feed.Levels = newMap
 }
+
+// move the additional fields of entities from their old to their new IDs; as a new
+// ID may be the old ID of another entity, this cannot be done one by one
+func moveAddFlds[V any](flds map[string]map[string]V, newIds map[string]string) {
+	for k, old := range flds {
+		moved := make(map[string]V, len(old))
+		for id, v := range old {
+			if newId, ok := newIds[id]; ok {
+				moved[newId] = v
+			}
+		}
+		flds[k] = moved
+	}
+}
-- 
2.43.0


From 8e20c4f8b96192bd3ecae0c719a95ac3cb20b20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:37 +0000
Subject: [PATCH 11/52] fix: wait for all workers of the ID minimizer

---
 processors/idminimizer.go | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/processors/idminimizer.go b/processors/idminimizer.go
index 8fd7deb..f91da15 100755
--- a/processors/idminimizer.go
+++ b/processors/idminimizer.go
@@ -61,9 +61,6 @@ func (minimizer IDMinimizer) Run(feed *gtfsparser.Feed) {
 	if minimizer.KeepPathways {
 		j = j - 1
 	}
-	if minimizer.KeepAttributions {
-		j = j - 1
-	}
 	fmt.Fprintf(os.Stdout, "Minimizing ids... ")
 	sem := make(chan empty, j)
 
@@ -121,17 +118,16 @@ func (minimizer IDMinimizer) Run(feed *gtfsparser.Feed) {
 			sem <- empty{}
 		}()
 	}
-	if !minimizer.KeepAttributions {
-		go func() {
-			minimizer.minimizeAttributionIds(feed)
-			sem <- empty{}
-		}()
-	}
 
 	for i := 0; i < j; i++ {
 		<-sem
 	}
 
+	// this uses the entities changed above
+	if !minimizer.KeepAttributions {
+		minimizer.minimizeAttributionIds(feed)
+	}
+
 	fmt.Fprintf(os.Stdout, "done.\n")
 }
 
-- 
2.43.0


From 4c83a2a8af47185db9316270452216eafbaa61fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:58 +0000
Subject: [PATCH 12/52] fix: check both routes of a transfer when removing
 orphans

---
 processors/orphanminimizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/processors/orphanminimizer.go b/processors/orphanminimizer.go
index 997f838..20d0e4d 100755
--- a/processors/orphanminimizer.go
+++ b/processors/orphanminimizer.go
@@ -98,7 +98,7 @@ func (or OrphanRemover) removeTransferOrphans(feed *gtfsparser.Feed) {
 		}
 
 		if tk.To_route != nil {
-			_, inFromRoute = referenced_routes[tk.To_route]
+			_, inToRoute = referenced_routes[tk.To_route]
 		}
 
 		if inFrom && inTo && inFromRoute && inToRoute {
-- 
2.43.0


From b920ec32045384a56aaec8a9eeb3b3b26317e932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:00 +0000
Subject: [PATCH 13/52] fix: remove orphan stops on all levels of stations

---
 processors/orphanminimizer.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/processors/orphanminimizer.go b/processors/orphanminimizer.go
index 20d0e4d..ad09b87 100755
--- a/processors/orphanminimizer.go
+++ b/processors/orphanminimizer.go
@@ -33,10 +33,11 @@ func (or OrphanRemover) Run(feed *gtfsparser.Feed) {
 
 	or.removeTransferOrphans(feed)
 
-	or.removeStopOrphans(feed)
-
-	// do this 2 times, because stop deletion can create new stop orphans (parent_station)
-	or.removeStopOrphans(feed)
+	// do this until nothing is left to remove, because stop deletion can create new stop orphans (parent_station)
+	for n := -1; n != len(feed.Stops); {
+		n = len(feed.Stops)
+		or.removeStopOrphans(feed)
+	}
 
 	or.removeShapeOrphans(feed)
 
-- 
2.43.0


From 25c1d82ae94fbffd99ecf922a527fd867c3744e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:02 +0000
Subject: [PATCH 14/52] fix: do not remove transfers at stations of used stops
 as orphans

---
 processors/orphanminimizer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/processors/orphanminimizer.go b/processors/orphanminimizer.go
index ad09b87..b98a1a5 100755
--- a/processors/orphanminimizer.go
+++ b/processors/orphanminimizer.go
@@ -74,7 +74,10 @@ func (or OrphanRemover) removeTransferOrphans(feed *gtfsparser.Feed) {
 	for _, t := range feed.Trips {
 		referenced_routes[t.Route] = empty{}
 		for _, st := range t.StopTimes {
-			referenced[st.Stop()] = empty{}
+			// transfers may also be given for the stations of the stops
+			for s := st.Stop(); s != nil; s = s.Parent_station {
+				referenced[s] = empty{}
+			}
 		}
 	}
 
-- 
2.43.0


From 755b343f04571e5cb083be9ce2b641f63003710f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:10 +0000
Subject: [PATCH 15/52] fix: take boarding and alighting of grouped stop times
 from the right visits

---
 processors/adjstoptimegrouper.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/processors/adjstoptimegrouper.go b/processors/adjstoptimegrouper.go
index 340b7c1..7283c57 100644
--- a/processors/adjstoptimegrouper.go
+++ b/processors/adjstoptimegrouper.go
@@ -34,9 +34,7 @@ func (m AdjacentStopTimeGrouper) Run(feed *gtfsparser.Feed) {
 			if t.StopTimes[i-1].Stop() == t.StopTimes[i].Stop() && t.StopTimes[i-1].Arrival_time().Equals(t.StopTimes[i-1].Departure_time()) && t.StopTimes[i].Arrival_time().Equals(t.StopTimes[i].Departure_time()) && ((!t.StopTimes[i-1].HasDistanceTraveled() && !t.StopTimes[i].HasDistanceTraveled()) || (t.StopTimes[i-1].HasDistanceTraveled() && t.StopTimes[i].HasDistanceTraveled() && t.StopTimes[i-1].HasDistanceTraveled() == t.StopTimes[i].HasDistanceTraveled())) && t.StopTimes[i-1].Headsign() == t.StopTimes[i].Headsign() && t.StopTimes[i-1].Continuous_pickup() == t.StopTimes[i].Continuous_pickup() {
 
 				// update previous stop
-				newSt[len(newSt) - 1].SetDeparture_time(t.StopTimes[i].Departure_time())
-				newSt[len(newSt) - 1].SetDrop_off_type(t.StopTimes[i-1].Drop_off_type())
-				newSt[len(newSt) - 1].SetPickup_type(t.StopTimes[i].Pickup_type())
+				newSt[len(newSt)-1] = m.merged(&newSt[len(newSt)-1], &t.StopTimes[i])
 				grouped++
 			} else {
 				newSt = append(newSt, t.StopTimes[i])
@@ -50,3 +48,21 @@ func (m AdjacentStopTimeGrouper) Run(feed *gtfsparser.Feed) {
 	grouped,
 	100.0*float64(grouped)/(float64(total)))
 }
+
+// merged returns the visit that starts with the stop time a and ends with the stop time b
+func (m AdjacentStopTimeGrouper) merged(a *gtfs.StopTime, b *gtfs.StopTime) gtfs.StopTime {
+	// start from an empty stop time, as boarding rules cannot be reset
+	ret := gtfs.StopTime{}
+	ret.SetStop(a.Stop())
+	ret.SetHeadsign(a.Headsign())
+	ret.SetSequence(a.Sequence())
+	ret.SetTimepoint(a.Timepoint())
+	ret.SetShape_dist_traveled(a.Shape_dist_traveled())
+	ret.SetContinuous_pickup(a.Continuous_pickup())
+	ret.SetContinuous_drop_off(a.Continuous_drop_off())
+	ret.SetArrival_time(a.Arrival_time())
+	ret.SetDrop_off_type(a.Drop_off_type())
+	ret.SetDeparture_time(b.Departure_time())
+	ret.SetPickup_type(b.Pickup_type())
+	return ret
+}
-- 
2.43.0


From fb6f30431306b8bda25bbb190367496d236f0734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:12 +0000
Subject: [PATCH 16/52] fix: do not group stop times with different distances,
 drop-off rules or missing times

---
 processors/adjstoptimegrouper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/processors/adjstoptimegrouper.go b/processors/adjstoptimegrouper.go
index 7283c57..0602597 100644
--- a/processors/adjstoptimegrouper.go
+++ b/processors/adjstoptimegrouper.go
@@ -31,7 +31,7 @@ func (m AdjacentStopTimeGrouper) Run(feed *gtfsparser.Feed) {
 
 		for i := 1; i < len(t.StopTimes);i++ {
 			total++
-			if t.StopTimes[i-1].Stop() == t.StopTimes[i].Stop() && t.StopTimes[i-1].Arrival_time().Equals(t.StopTimes[i-1].Departure_time()) && t.StopTimes[i].Arrival_time().Equals(t.StopTimes[i].Departure_time()) && ((!t.StopTimes[i-1].HasDistanceTraveled() && !t.StopTimes[i].HasDistanceTraveled()) || (t.StopTimes[i-1].HasDistanceTraveled() && t.StopTimes[i].HasDistanceTraveled() && t.StopTimes[i-1].HasDistanceTraveled() == t.StopTimes[i].HasDistanceTraveled())) && t.StopTimes[i-1].Headsign() == t.StopTimes[i].Headsign() && t.StopTimes[i-1].Continuous_pickup() == t.StopTimes[i].Continuous_pickup() {
+			if t.StopTimes[i-1].Stop() == t.StopTimes[i].Stop() && t.StopTimes[i-1].Arrival_time().Equals(t.StopTimes[i-1].Departure_time()) && t.StopTimes[i].Arrival_time().Equals(t.StopTimes[i].Departure_time()) && ((!t.StopTimes[i-1].HasDistanceTraveled() && !t.StopTimes[i].HasDistanceTraveled()) || (t.StopTimes[i-1].HasDistanceTraveled() && t.StopTimes[i].HasDistanceTraveled() && t.StopTimes[i-1].Shape_dist_traveled() == t.StopTimes[i].Shape_dist_traveled())) && t.StopTimes[i-1].Headsign() == t.StopTimes[i].Headsign() && t.StopTimes[i-1].Continuous_pickup() == t.StopTimes[i].Continuous_pickup() && t.StopTimes[i-1].Continuous_drop_off() == t.StopTimes[i].Continuous_drop_off() && t.StopTimes[i-1].Departure_time().Empty() == t.StopTimes[i].Arrival_time().Empty() {
 
 				// update previous stop
 				newSt[len(newSt)-1] = m.merged(&newSt[len(newSt)-1], &t.StopTimes[i])
-- 
2.43.0


From 2d493f4866a3fd00fd6ba6daa61435872f0bac55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:37 +0000
Subject: [PATCH 17/52] fix: handle missing times when searching for too fast
 trips

---
 processors/toofasttripremover.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/processors/toofasttripremover.go b/processors/toofasttripremover.go
index 13c0c78..0a79fd1 100644
--- a/processors/toofasttripremover.go
+++ b/processors/toofasttripremover.go
@@ -34,6 +34,18 @@ func (f TooFastTripRemover) Run(feed *gtfsparser.Feed) {
 		for i := 1; i < len(t.StopTimes); i++ {
 			dist += distSApprox(t.StopTimes[i-1].Stop(), t.StopTimes[i].Stop())
 
+			if t.StopTimes[i].Arrival_time().Empty() {
+				// no time is known here, continue to the next stop
+				continue
+			}
+
+			if last.Departure_time().Empty() {
+				// no time is known before this stop
+				last = t.StopTimes[i]
+				dist = 0
+				continue
+			}
+
 			inter := t.StopTimes[i].Arrival_time().SecondsSinceMidnight() - last.Departure_time().SecondsSinceMidnight()
 
 			speed := 0.0
@@ -100,10 +112,18 @@ func (f TooFastTripRemover) Run(feed *gtfsparser.Feed) {
 		}
 
 		for j := 1; j < len(t.StopTimes); j++ {
+			if t.StopTimes[j].Departure_time().Empty() {
+				continue
+			}
+
 			dist := 0.0
 			for i := j + 1; i < len(t.StopTimes); i++ {
 				dist += distSApprox(t.StopTimes[i-1].Stop(), t.StopTimes[i].Stop())
 
+				if t.StopTimes[i].Arrival_time().Empty() {
+					continue
+				}
+
 				inter := t.StopTimes[i].Arrival_time().SecondsSinceMidnight() - t.StopTimes[j].Departure_time().SecondsSinceMidnight()
 
 				speed := 0.0
-- 
2.43.0


From cca3f3631813dad9676fe5166ca47cf478b294d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:38 +0000
Subject: [PATCH 18/52] fix: also check the parts of a trip that start at its
 first stop for their speed

---
 processors/toofasttripremover.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/processors/toofasttripremover.go b/processors/toofasttripremover.go
index 0a79fd1..7d1a7e6 100644
--- a/processors/toofasttripremover.go
+++ b/processors/toofasttripremover.go
@@ -111,7 +111,7 @@ func (f TooFastTripRemover) Run(feed *gtfsparser.Feed) {
 			continue
 		}
 
-		for j := 1; j < len(t.StopTimes); j++ {
+		for j := 0; j < len(t.StopTimes); j++ {
 			if t.StopTimes[j].Departure_time().Empty() {
 				continue
 			}
-- 
2.43.0


From 723570870ea9a2c6a3a9efd81d851e9b1d6027c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:31 +0000
Subject: [PATCH 19/52] fix: remove pathways of removed stops in the complete
 trips filter, not fares

---
 processors/completegeotripsfilter.go |  2 +-
 processors/util.go                   | 11 +++++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/processors/completegeotripsfilter.go b/processors/completegeotripsfilter.go
index 2409b0d..ab7c2a8 100755
--- a/processors/completegeotripsfilter.go
+++ b/processors/completegeotripsfilter.go
@@ -76,7 +76,7 @@ func (f CompleteTripsGeoFilter) Run(feed *gtfsparser.Feed) {
 
 	for _, s := range toDel {
 		for _, p := range pathways[s] {
-			feed.DeletePathway(p.Id)
+			DeletePathway(feed, p.Id)
 		}
 
 		feed.DeleteStop(s.Id)
diff --git a/processors/util.go b/processors/util.go
index 1d50731..3c7783b 100755
--- a/processors/util.go
+++ b/processors/util.go
@@ -325,3 +325,14 @@ func moveTransfer(feed *gtfsparser.Feed, from gtfs.TransferKey, to gtfs.Transfer
 
 	feed.DeleteTransfer(from)
 }
+
+// DeletePathway removes a pathway from a feed (the DeletePathway() of the feed
+// removes the fare attribute of that ID instead)
+func DeletePathway(feed *gtfsparser.Feed, id string) {
+	delete(feed.Pathways, id)
+
+	// delete additional fields from CSV
+	for k := range feed.PathwaysAddFlds {
+		delete(feed.PathwaysAddFlds[k], id)
+	}
+}
-- 
2.43.0


From 69b98222d9d722a138829ac84a50d060d40d5a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:32 +0000
Subject: [PATCH 20/52] fix: keep the stations of boarding areas in the
 complete trips filter

---
 processors/completegeotripsfilter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/processors/completegeotripsfilter.go b/processors/completegeotripsfilter.go
index ab7c2a8..1cdd636 100755
--- a/processors/completegeotripsfilter.go
+++ b/processors/completegeotripsfilter.go
@@ -27,8 +27,8 @@ func (f CompleteTripsGeoFilter) Run(feed *gtfsparser.Feed) {
 			if poly.PolyContains(float64(s.Lon), float64(s.Lat)) {
 				filterstops[s] = true
 				usedstops[s] = true
-				if s.Parent_station != nil {
-					usedstops[s.Parent_station] = true
+				for par := s.Parent_station; par != nil; par = par.Parent_station {
+					usedstops[par] = true
 				}
 				break
 			}
-- 
2.43.0


From 39ce4c90782a045b16623166c59a3584f5079fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:39 +0000
Subject: [PATCH 21/52] fix: do not duplicate the point of single-point shapes
 in shape minimization

---
 processors/shapeminimizer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/processors/shapeminimizer.go b/processors/shapeminimizer.go
index 2e342c0..b967d26 100755
--- a/processors/shapeminimizer.go
+++ b/processors/shapeminimizer.go
@@ -71,6 +71,10 @@ func (sm ShapeMinimizer) Run(feed *gtfsparser.Feed) {
 
 // Minimize a single shape using the Douglas-Peucker algorithm
 func (sm *ShapeMinimizer) minimizeShape(points gtfs.ShapePoints, e float64) gtfs.ShapePoints {
+	if len(points) < 2 {
+		return points
+	}
+
 	var maxD float64
 	var maxI int
 
-- 
2.43.0


From e13d542d87e386b1c8c651edbf473335015b5c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:39 +0000
Subject: [PATCH 22/52] fix: keep additional fields at their points in shape
 minimization

---
 processors/shapeminimizer.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/processors/shapeminimizer.go b/processors/shapeminimizer.go
index b967d26..a14a7ab 100755
--- a/processors/shapeminimizer.go
+++ b/processors/shapeminimizer.go
@@ -43,7 +43,17 @@ func (sm ShapeMinimizer) Run(feed *gtfsparser.Feed) {
 				chunknum[a] += len(s.Points)
 				s.Points = sm.minimizeShape(s.Points, sm.Epsilon)
 				for i := 0; i < len(s.Points); i++ {
+					seq := int(s.Points[i].Sequence)
 					s.Points[i].Sequence = uint32(i)
+
+					// move additional fields along (i <= seq, as sequences increase)
+					for _, flds := range feed.ShapesAddFlds {
+						if v, ok := flds[s.Id][seq]; ok {
+							flds[s.Id][i] = v
+						} else {
+							delete(flds[s.Id], i)
+						}
+					}
 				}
 				chunkgain[a] += bef - len(s.Points)
 			}
-- 
2.43.0


From 9fbd3fb09ce0316f8e924c677307c3a60c0807e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:52 +0000
Subject: [PATCH 23/52] fix: keep measures before the first measured point
 below it when remeasuring shapes

---
 processors/shaperemeasurer.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/processors/shaperemeasurer.go b/processors/shaperemeasurer.go
index dd1508f..f49f8b8 100755
--- a/processors/shaperemeasurer.go
+++ b/processors/shaperemeasurer.go
@@ -91,7 +91,18 @@ func (s ShapeRemeasurer) remeasureUnknown(shape *gtfs.Shape, avgMeasure float64)
 	for i := 0; i <= len(shape.Points); i++ {
 		if i == len(shape.Points) || shape.Points[i].HasDistanceTraveled() {
 			if lastUMIndex > -1 {
-				s.remeasureBetween(lastUMIndex, i, avgMeasure, lastM, shape)
+				mPUnit := avgMeasure
+				if lastUMIndex == 0 && i < len(shape.Points) {
+					// at the beginning, do not exceed the first known measure
+					d := 0.0
+					for j := 1; j <= i; j++ {
+						d = d + distP(&shape.Points[j-1], &shape.Points[j])
+					}
+					if first := float64(shape.Points[i].Dist_traveled); d*mPUnit > first {
+						mPUnit = first / d
+					}
+				}
+				s.remeasureBetween(lastUMIndex, i, mPUnit, lastM, shape)
 				lastUMIndex = -1
 			}
 			if i < len(shape.Points) {
-- 
2.43.0


From 18772975ef78a540129c1d9975ea7545211be46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:16 +0000
Subject: [PATCH 24/52] fix: keep measures of stop times within their shape
 segment despite rounding

---
 processors/stoptimeremeasurer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/processors/stoptimeremeasurer.go b/processors/stoptimeremeasurer.go
index 1c7e45b..45cc3f1 100644
--- a/processors/stoptimeremeasurer.go
+++ b/processors/stoptimeremeasurer.go
@@ -365,6 +365,10 @@ func (s *StopTimeRemeasurer) remeasure(trip *gtfs.Trip) bool {
 		c := cands[i][chosen]
 
 		newDist := trip.Shape.Points[c.Seg].Dist_traveled + float32(float64(trip.Shape.Points[c.Seg + 1].Dist_traveled - trip.Shape.Points[c.Seg].Dist_traveled) * c.Progr)
+		if newDist > trip.Shape.Points[c.Seg + 1].Dist_traveled {
+			// rounding error
+			newDist = trip.Shape.Points[c.Seg + 1].Dist_traveled
+		}
 		trip.StopTimes[i].SetShape_dist_traveled(newDist)
 
 		// if i != len(trip.StopTimes) -1 && trip.StopTimes[i].Shape_dist_traveled() > trip.StopTimes[i+1].Shape_dist_traveled() {
-- 
2.43.0


From 38a0597deecb039bacaa403e0a3489cc6610c870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:27 +0000
Subject: [PATCH 25/52] fix: snap stops of single-point shapes to that point

---
 processors/shapesnapper.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/processors/shapesnapper.go b/processors/shapesnapper.go
index 33b7f26..7d828c9 100644
--- a/processors/shapesnapper.go
+++ b/processors/shapesnapper.go
@@ -111,6 +111,10 @@ func (sm *ShapeSnapper) snapTo(stop *gtfs.Stop, distT float32, shape *gtfs.Shape
 	px := sm.stopMercs[stop][0]
 	py := sm.stopMercs[stop][1]
 
+	if len(shp) == 1 {
+		return shp[0][0], shp[0][1]
+	}
+
 	for i := 1; i < len(shp); i++ {
 		sx, sy := snapTo(px, py, shp[i-1][0], shp[i-1][1], shp[i][0], shp[i][1])
 		dist := dist(px, py, sx, sy)
-- 
2.43.0


From 7008c5ddaf0007da7e9299e63b9fcbe5304c0220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:27 +0000
Subject: [PATCH 26/52] fix: do not snap stops to parts of shapes without
 growing measures

---
 processors/shapesnapper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/processors/shapesnapper.go b/processors/shapesnapper.go
index 7d828c9..44fee72 100644
--- a/processors/shapesnapper.go
+++ b/processors/shapesnapper.go
@@ -90,7 +90,7 @@ func (sm *ShapeSnapper) snapTo(stop *gtfs.Stop, distT float32, shape *gtfs.Shape
 
 	if float64(distT) != math.NaN() {
 		for i := 1; i < len(shape.Points); i++ {
-			if shape.Points[i].Dist_traveled <= distT && i < len(shape.Points) - 1 && shape.Points[i+1].Dist_traveled >= distT {
+			if shape.Points[i].Dist_traveled <= distT && i < len(shape.Points) - 1 && shape.Points[i+1].Dist_traveled >= distT && shape.Points[i+1].Dist_traveled > shape.Points[i].Dist_traveled {
 				d := (distT - shape.Points[i].Dist_traveled) / (shape.Points[i + 1].Dist_traveled - shape.Points[i].Dist_traveled)
 
 				dx := shp[i+1][0] - shp[i][0]
-- 
2.43.0


From fbcab5b5619b9bbaf2adc4ed67787f531e9e35ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:24 +0000
Subject: [PATCH 27/52] fix: do not fold trips with different dwell times into
 one frequency

---
 processors/frequencyminizer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/processors/frequencyminizer.go b/processors/frequencyminizer.go
index 4dcfbf0..a44a13e 100755
--- a/processors/frequencyminizer.go
+++ b/processors/frequencyminizer.go
@@ -505,6 +505,8 @@ func (m FrequencyMinimizer) hasSameRelStopTimes(a *gtfs.Trip, b *gtfs.Trip, feed
 			if a.StopTimes[i].Departure_time().SecondsSinceMidnight()-aPrev.Departure_time().SecondsSinceMidnight() != b.StopTimes[i].Departure_time().SecondsSinceMidnight()-bPrev.Departure_time().SecondsSinceMidnight() {
 				return false
 			}
+		} else if a.StopTimes[i].Departure_time().SecondsSinceMidnight()-a.StopTimes[i].Arrival_time().SecondsSinceMidnight() != b.StopTimes[i].Departure_time().SecondsSinceMidnight()-b.StopTimes[i].Arrival_time().SecondsSinceMidnight() {
+			return false
 		}
 
 		aPrev = &a.StopTimes[i]
-- 
2.43.0


From ca8e5ccc858cdff146d90688eba7bd3dcfb2990f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:24 +0000
Subject: [PATCH 28/52] fix: keep missing stop times missing in the frequency
 search

---
 processors/frequencyminizer.go | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/processors/frequencyminizer.go b/processors/frequencyminizer.go
index a44a13e..3da6ff2 100755
--- a/processors/frequencyminizer.go
+++ b/processors/frequencyminizer.go
@@ -452,18 +452,14 @@ func (m FrequencyMinimizer) isTimeIndependentEqual(a *gtfs.Trip, b *gtfs.Trip, f
 // Remeasure a trips stop times by taking their relative values and changing the sequence to
 // start with time
 func (m FrequencyMinimizer) remeasureStopTimes(t *gtfs.Trip, time gtfs.Time) {
-	diff := 0
-	curArrDepDiff := 0
+	diff := time.SecondsSinceMidnight() - t.StopTimes[0].Arrival_time().SecondsSinceMidnight()
 	for i := 0; i < len(t.StopTimes); i++ {
-		curArrDepDiff = t.StopTimes[i].Departure_time().SecondsSinceMidnight() - t.StopTimes[i].Arrival_time().SecondsSinceMidnight()
-		oldArrT := t.StopTimes[i].Arrival_time().SecondsSinceMidnight()
-
-		t.StopTimes[i].SetArrival_time(m.getGtfsTimeFromSec(time.SecondsSinceMidnight() + diff))
-		t.StopTimes[i].SetDeparture_time(m.getGtfsTimeFromSec(time.SecondsSinceMidnight() + diff + curArrDepDiff))
-
-		if i < len(t.StopTimes)-1 {
-			diff += t.StopTimes[i+1].Arrival_time().SecondsSinceMidnight() - oldArrT
+		if t.StopTimes[i].Arrival_time().Empty() || t.StopTimes[i].Departure_time().Empty() {
+			continue
 		}
+
+		t.StopTimes[i].SetArrival_time(m.getGtfsTimeFromSec(t.StopTimes[i].Arrival_time().SecondsSinceMidnight() + diff))
+		t.StopTimes[i].SetDeparture_time(m.getGtfsTimeFromSec(t.StopTimes[i].Departure_time().SecondsSinceMidnight() + diff))
 	}
 }
 
-- 
2.43.0


From 113b1dbc131e17196718e1124297efa401b6c493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:37 +0000
Subject: [PATCH 29/52] fix: let frequencies found by the search start with the
 departure at the first stop

---
 processors/frequencyminizer.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/processors/frequencyminizer.go b/processors/frequencyminizer.go
index 3da6ff2..3adc372 100755
--- a/processors/frequencyminizer.go
+++ b/processors/frequencyminizer.go
@@ -402,7 +402,7 @@ func (m FrequencyMinimizer) getTimeIndependentEquivalentTrips(trip *gtfs.Trip, t
 				if t.Id == trip.Id || m.isTimeIndependentEqual(t, trip, feed) {
 					if t.Frequencies == nil || len(*t.Frequencies) == 0 {
 						mutex.Lock()
-						ret.trips = append(ret.trips, tripWrapper{t, t.StopTimes[0].Arrival_time(), false, nil})
+						ret.trips = append(ret.trips, tripWrapper{t, t.StopTimes[0].Departure_time(), false, nil})
 						ret.coveredTrips[t] = empty{}
 						mutex.Unlock()
 					} else {
@@ -452,13 +452,13 @@ func (m FrequencyMinimizer) isTimeIndependentEqual(a *gtfs.Trip, b *gtfs.Trip, f
 // Remeasure a trips stop times by taking their relative values and changing the sequence to
 // start with time
 func (m FrequencyMinimizer) remeasureStopTimes(t *gtfs.Trip, time gtfs.Time) {
-	diff := time.SecondsSinceMidnight() - t.StopTimes[0].Arrival_time().SecondsSinceMidnight()
+	diff := time.SecondsSinceMidnight() - t.StopTimes[0].Departure_time().SecondsSinceMidnight()
 	for i := 0; i < len(t.StopTimes); i++ {
 		if t.StopTimes[i].Arrival_time().Empty() || t.StopTimes[i].Departure_time().Empty() {
 			continue
 		}
 
-		t.StopTimes[i].SetArrival_time(m.getGtfsTimeFromSec(t.StopTimes[i].Arrival_time().SecondsSinceMidnight() + diff))
+		t.StopTimes[i].SetArrival_time(m.getGtfsTimeFromSec(imax(0, t.StopTimes[i].Arrival_time().SecondsSinceMidnight()+diff)))
 		t.StopTimes[i].SetDeparture_time(m.getGtfsTimeFromSec(t.StopTimes[i].Departure_time().SecondsSinceMidnight() + diff))
 	}
 }
-- 
2.43.0


From 8f26b1daa4a92776fe3fabfb2b827f57c3762573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:37 +0000
Subject: [PATCH 30/52] fix: keep trip attributions in the frequency search

---
 processors/frequencyminizer.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/processors/frequencyminizer.go b/processors/frequencyminizer.go
index 3adc372..bca915e 100755
--- a/processors/frequencyminizer.go
+++ b/processors/frequencyminizer.go
@@ -153,6 +153,7 @@ func (m FrequencyMinimizer) Run(feed *gtfsparser.Feed) {
 				curTrip.Shape = t.Shape
 				curTrip.Wheelchair_accessible = t.Wheelchair_accessible
 				curTrip.Bikes_allowed = t.Bikes_allowed
+				curTrip.Attributions = t.Attributions
 				curTrip.StopTimes = make(gtfs.StopTimes, len(t.StopTimes))
 				copy(curTrip.StopTimes, t.StopTimes)
 			} else {
@@ -446,7 +447,23 @@ func (m FrequencyMinimizer) isTimeIndependentEqual(a *gtfs.Trip, b *gtfs.Trip, f
 	return addFldsEq && a.Route == b.Route && a.Service == b.Service && a.Headsign == b.Headsign &&
 		a.Short_name == b.Short_name && a.Direction_id == b.Direction_id && a.Block_id == b.Block_id &&
 		a.Shape == b.Shape && a.Wheelchair_accessible == b.Wheelchair_accessible &&
-		a.Bikes_allowed == b.Bikes_allowed && m.hasSameRelStopTimes(a, b, feed)
+		a.Bikes_allowed == b.Bikes_allowed && m.hasSameAttributions(a, b) && m.hasSameRelStopTimes(a, b, feed)
+}
+
+// true if two trips have the same attributions
+func (m FrequencyMinimizer) hasSameAttributions(a *gtfs.Trip, b *gtfs.Trip) bool {
+	if a.Attributions == nil || b.Attributions == nil {
+		return (a.Attributions == nil || len(*a.Attributions) == 0) && (b.Attributions == nil || len(*b.Attributions) == 0)
+	}
+	if len(*a.Attributions) != len(*b.Attributions) {
+		return false
+	}
+	for i := range *a.Attributions {
+		if (*a.Attributions)[i] != (*b.Attributions)[i] {
+			return false
+		}
+	}
+	return true
 }
 
 // Remeasure a trips stop times by taking their relative values and changing the sequence to
-- 
2.43.0


From 4896a4b3770af07be1aba6c3b04c396765ec0a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:37 +0000
Subject: [PATCH 31/52] fix: compare additional stop time fields at their own
 sequence number in the frequency search

---
 processors/frequencyminizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/processors/frequencyminizer.go b/processors/frequencyminizer.go
index bca915e..15932a3 100755
--- a/processors/frequencyminizer.go
+++ b/processors/frequencyminizer.go
@@ -499,7 +499,7 @@ func (m FrequencyMinimizer) hasSameRelStopTimes(a *gtfs.Trip, b *gtfs.Trip, feed
 		addFldsEq := true
 
 		for _, v := range feed.StopTimesAddFlds {
-			if v[a.Id][a.StopTimes[i].Sequence()] != v[b.Id][a.StopTimes[i].Sequence()] {
+			if v[a.Id][a.StopTimes[i].Sequence()] != v[b.Id][b.StopTimes[i].Sequence()] {
 				addFldsEq = false
 				break
 			}
-- 
2.43.0


From 6b18f4f4f5e68e8cb3bc13ffacff929223a9c143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:36 +0000
Subject: [PATCH 32/52] fix: do not consider already deleted trips again in the
 frequency search

---
 processors/frequencyminizer.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/processors/frequencyminizer.go b/processors/frequencyminizer.go
index 15932a3..91cd0bc 100755
--- a/processors/frequencyminizer.go
+++ b/processors/frequencyminizer.go
@@ -85,7 +85,7 @@ func (m FrequencyMinimizer) Run(feed *gtfsparser.Feed) {
 		}
 
 		// trips time-independent equal to the current trip
-		eqs := m.getTimeIndependentEquivalentTrips(t, tripsSl[t.Route][t.Service], feed)
+		eqs := m.getTimeIndependentEquivalentTrips(t, tripsSl[t.Route][t.Service], processed, feed)
 		for _, t := range eqs.trips {
 			processed[t.Trip] = empty{}
 		}
@@ -387,7 +387,7 @@ func (m FrequencyMinimizer) getPossibleFreqs(tws tripWrappers) map[int]empty {
 }
 
 // Get trips that are equal to trip without considering the absolute time values
-func (m FrequencyMinimizer) getTimeIndependentEquivalentTrips(trip *gtfs.Trip, trips []*gtfs.Trip, feed *gtfsparser.Feed) tripWrappers {
+func (m FrequencyMinimizer) getTimeIndependentEquivalentTrips(trip *gtfs.Trip, trips []*gtfs.Trip, processed map[*gtfs.Trip]empty, feed *gtfsparser.Feed) tripWrappers {
 	ret := tripWrappers{make([]tripWrapper, 0), make(map[*gtfs.Trip]empty, 0)}
 
 	chunks := MaxParallelism()
@@ -400,6 +400,11 @@ func (m FrequencyMinimizer) getTimeIndependentEquivalentTrips(trip *gtfs.Trip, t
 			for i := workload * j; i < workload*(j+1) && i < len(trips); i++ {
 				t := trips[i]
 
+				// already handled (and possibly deleted)
+				if _, contained := processed[t]; contained {
+					continue
+				}
+
 				if t.Id == trip.Id || m.isTimeIndependentEqual(t, trip, feed) {
 					if t.Frequencies == nil || len(*t.Frequencies) == 0 {
 						mutex.Lock()
-- 
2.43.0


From 48932200798d72a997dee417f548c9573c319f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:36 +0000
Subject: [PATCH 33/52] fix: keep single runs of non-exact frequencies
 non-exact in the frequency search

---
 processors/frequencyminizer.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/processors/frequencyminizer.go b/processors/frequencyminizer.go
index 91cd0bc..8b05baf 100755
--- a/processors/frequencyminizer.go
+++ b/processors/frequencyminizer.go
@@ -174,6 +174,14 @@ func (m FrequencyMinimizer) Run(feed *gtfsparser.Feed) {
 					* we can assume that progressions with 1 match are only
 					* contained in single-progression-packs
 					 */
+					if src := eqs.trips[p.matches[0]].sourceFreq; src != nil && !src.Exact_times {
+						// single runs of non-exact frequencies are no exact trips
+						a := new(gtfs.Frequency)
+						a.Start_time = eqs.trips[p.matches[0]].t
+						a.End_time = m.getGtfsTimeFromSec(imin(src.End_time.SecondsSinceMidnight(), a.Start_time.SecondsSinceMidnight()+src.Headway_secs))
+						a.Headway_secs = src.Headway_secs
+						*curTrip.Frequencies = append(*curTrip.Frequencies, a)
+					}
 					continue
 				}
 				if smallestStartTime.SecondsSinceMidnight() > eqs.trips[p.matches[0]].t.SecondsSinceMidnight() {
-- 
2.43.0


From 926e0f4076de52fa9349c6075cef15398cb6b933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:18 +0000
Subject: [PATCH 34/52] fix: reject date filters that are no YYYYMMDD dates

---
 gtfstidy.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/gtfstidy.go b/gtfstidy.go
index ec0cce0..a8e43b9 100755
--- a/gtfstidy.go
+++ b/gtfstidy.go
@@ -41,8 +41,13 @@ func getGtfsPoly(poly [][][]float64) gtfsparser.Polygon {
 func parseDate(str string) gtfs.Date {
 	var day, month, year int
 	var e error
-	if len(str) < 8 {
-		e = fmt.Errorf("only has %d characters, expected 8", len(str))
+	if len(str) != 8 {
+		e = fmt.Errorf("has %d characters, expected 8", len(str))
+	}
+	for i := 0; e == nil && i < len(str); i++ {
+		if str[i] < '0' || str[i] > '9' {
+			e = fmt.Errorf("only digits are allowed")
+		}
 	}
 	if e == nil {
 		day, e = strconv.Atoi(str[6:8])
@@ -54,18 +59,22 @@ func parseDate(str string) gtfs.Date {
 		year, e = strconv.Atoi(str[0:4])
 	}
 
-	if e == nil && day < 1 || day > 31 {
+	if e == nil && (day < 1 || day > 31) {
 		e = fmt.Errorf("day must be in the range [1, 31]")
 	}
 
-	if e == nil && month < 1 || month > 12 {
+	if e == nil && (month < 1 || month > 12) {
 		e = fmt.Errorf("month must be in the range [1, 12]")
 	}
 
-	if e == nil && year < 1900 || year > (1900+255) {
+	if e == nil && (year < 1900 || year > (1900+255)) {
 		e = fmt.Errorf("date must be in the range [19000101, 21551231]")
 	}
 
+	if e == nil && (day > 30 && (month == 4 || month == 6 || month == 9 || month == 11) || month == 2 && (day > 29 || day > 28 && (year%4 != 0 || year%100 == 0 && year%400 != 0))) {
+		e = fmt.Errorf("no such day in this month")
+	}
+
 	if e != nil {
 		panic(fmt.Errorf("Expected YYYYMMDD date, found '%s' (%s)", str, e.Error()))
 	}
-- 
2.43.0


From 15e0ef2418e70b79d98af39f59681ab51f4c214f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:19 +0000
Subject: [PATCH 35/52] fix: reject route types that do not fit instead of
 filtering by another type

---
 gtfstidy.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gtfstidy.go b/gtfstidy.go
index a8e43b9..4b13372 100755
--- a/gtfstidy.go
+++ b/gtfstidy.go
@@ -233,7 +233,7 @@ func main() {
 			if len(s) == 0 {
 				continue
 			}
-			i, err := strconv.Atoi(s)
+			i, err := strconv.ParseInt(s, 10, 16)
 
 			if err != nil {
 				panic(fmt.Errorf("%s is not a valid GTFS MOT", s))
@@ -249,7 +249,7 @@ func main() {
 			if len(s) == 0 {
 				continue
 			}
-			i, err := strconv.Atoi(s)
+			i, err := strconv.ParseInt(s, 10, 16)
 
 			if err != nil {
 				panic(fmt.Errorf("%s is not a valid GTFS MOT", s))
-- 
2.43.0


From 63f50f139dbb22ae3b8874560a05977822fafa89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:20 +0000
Subject: [PATCH 36/52] fix: dropping platform codes only removes stop
 duplicates if requested

---
 gtfstidy.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/gtfstidy.go b/gtfstidy.go
index 4b13372..8552e60 100755
--- a/gtfstidy.go
+++ b/gtfstidy.go
@@ -583,11 +583,13 @@ func main() {
 			minzers = append(minzers, processors.PlatformCodeDropper{})
 
 			// remove redundant stops again
-			minzers = append(minzers, processors.StopDuplicateRemover{
-				DistThresholdStop:    5.0,
-				DistThresholdStation: 50,
-				Fuzzy:                *useRedStopsMinimizerFuzzy,
-			})
+			if *useRedStopMinimizer {
+				minzers = append(minzers, processors.StopDuplicateRemover{
+					DistThresholdStop:    5.0,
+					DistThresholdStation: 50,
+					Fuzzy:                *useRedStopsMinimizerFuzzy,
+				})
+			}
 		}
 
 		if *useShapeRemeasurer || *useShapeMinimizer || *useRedShapeRemover || *useStopTimeRemeasurer {
-- 
2.43.0


From e6c6de6ba030503f152d51d9de2d8be1247d5e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:22 +0000
Subject: [PATCH 37/52] fix: name all options the shorthands stand for

---
 gtfstidy.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gtfstidy.go b/gtfstidy.go
index 8552e60..acad437 100755
--- a/gtfstidy.go
+++ b/gtfstidy.go
@@ -128,10 +128,10 @@ func main() {
 	endDateFilter := flag.StringP("date-end", "", "", "end date filter, as YYYYMMDD")
 
 	fixShortHand := flag.BoolP("fix", "", false, "shorthand for -eDnz -p '-'")
-	compressShortHand := flag.BoolP("compress", "", false, "shorthand for -OSRCcIAP")
-	minimizeShortHand := flag.BoolP("Compress", "", false, "shorthand for -OSRCcIAPdT --red-stops-fuzzy --red-trips-fuzzy, like --compress, but additionally compress stop times into frequencies, use fuzzy matching for redundant trip and stop removal and use dense character ids. The latter destroys any existing external references (like in GTFS realtime streams)")
-	mergeShortHand := flag.BoolP("merge", "", false, "shorthand for -ARPICO")
-	fuzzyMergeShortHand := flag.BoolP("Merge", "", false, "shorthand for -EARPICO --red-trips-fuzzy --red-stops-fuzzy")
+	compressShortHand := flag.BoolP("compress", "", false, "shorthand for -OsSRCcIAP")
+	minimizeShortHand := flag.BoolP("Compress", "", false, "shorthand for -OsSRCcIAPdT --red-stops-fuzzy --red-trips-fuzzy, like --compress, but additionally compress stop times into frequencies, use fuzzy matching for redundant trip and stop removal and use dense character ids. The latter destroys any existing external references (like in GTFS realtime streams)")
+	mergeShortHand := flag.BoolP("merge", "", false, "shorthand for -ARPICcO")
+	fuzzyMergeShortHand := flag.BoolP("Merge", "", false, "shorthand for -EARPICcO --red-trips-fuzzy --red-stops-fuzzy")
 
 	assumeCleanCsv := flag.BoolP("assume-clean-csv", "", false, "assume clean csv (no leading spaces, clean line breaks)")
 	useDefaultValuesOnError := flag.BoolP("default-on-errs", "e", false, "if non-required fields have errors, fall back to the default values")
@@ -148,7 +148,7 @@ func main() {
 
 	idPrefix := flag.StringP("prefix", "", "", "prefix used before all ids")
 
-	keepIds := flag.BoolP("keep-ids", "", false, "preserve station, fare, shape, route, trip, level, agency, pathway, and service IDs")
+	keepIds := flag.BoolP("keep-ids", "", false, "preserve station, block, fare, shape, route, trip, level, agency, pathway, and service IDs")
 	keepStationIds := flag.BoolP("keep-station-ids", "", false, "preserve station IDs")
 	keepBlockIds := flag.BoolP("keep-block-ids", "", false, "preserve block IDs")
 	keepFareIds := flag.BoolP("keep-fare-ids", "", false, "preserve fare IDs")
-- 
2.43.0


From 5c6039d97bbf7d6a38b60af3ebb262db75752e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:11 +0000
Subject: [PATCH 38/52] fix: close polygon filters whose last point differs in
 the longitude or latitude only

---
 gtfstidy.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gtfstidy.go b/gtfstidy.go
index acad437..58dcbe1 100755
--- a/gtfstidy.go
+++ b/gtfstidy.go
@@ -381,7 +381,7 @@ func main() {
 		}
 
 		// ensure polygon is closed
-		if len(poly) > 1 && (poly[0][0] != poly[len(poly)-1][0] || poly[0][0] != poly[len(poly)-1][0]) {
+		if len(poly) > 1 && poly[0] != poly[len(poly)-1] {
 			poly = append(poly, [2]float64{poly[0][0], poly[0][1]})
 		}
 
@@ -412,7 +412,7 @@ func main() {
 			poly[3] = [2]float64{bbox[1][0], bbox[0][1]}
 
 			// ensure polygon is closed
-			if len(poly) > 1 && (poly[0][0] != poly[len(poly)-1][0] || poly[0][0] != poly[len(poly)-1][0]) {
+			if len(poly) > 1 && poly[0] != poly[len(poly)-1] {
 				poly = append(poly, [2]float64{poly[0][0], poly[0][1]})
 			}
 
-- 
2.43.0


From 6475324dfc8f7a4492995f12f3701ac6a83aee5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:13 +0000
Subject: [PATCH 39/52] fix: reject coordinates of area filters that are no
 finite numbers

---
 gtfstidy.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gtfstidy.go b/gtfstidy.go
index 58dcbe1..56c4c3d 100755
--- a/gtfstidy.go
+++ b/gtfstidy.go
@@ -16,6 +16,7 @@ import (
 	"github.com/paulmach/go.geojson"
 	flag "github.com/spf13/pflag"
 	"io/ioutil"
+	"math"
 	"os"
 	"path"
 	"strconv"
@@ -102,6 +103,10 @@ func parseCoords(s string) ([][2]float64, error) {
 			return nil, err
 		}
 
+		if math.IsNaN(x) || math.IsNaN(y) || math.IsInf(x, 0) || math.IsInf(y, 0) {
+			return nil, errors.New("Coordinates must be finite numbers")
+		}
+
 		coord := [2]float64{x, y}
 		ret = append(ret, coord)
 	}
-- 
2.43.0


From bcb38265161ed8506eb1254e270c7f11ea3270ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:14 +0000
Subject: [PATCH 40/52] fix: reject bounding boxes that are not given by two
 points instead of ignoring them

---
 gtfstidy.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gtfstidy.go b/gtfstidy.go
index 56c4c3d..bd5ed33 100755
--- a/gtfstidy.go
+++ b/gtfstidy.go
@@ -408,6 +408,11 @@ func main() {
 			}
 		}
 
+		if len(bbox) > 0 && len(bbox) != 2 {
+			fmt.Fprintf(os.Stderr, "\nCould not parse bounding box filter: expected 2 points, found %d.\n", len(bbox))
+			os.Exit(1)
+		}
+
 		if len(bbox) == 2 {
 			poly := make([][2]float64, 4)
 
-- 
2.43.0


From a01b732579068eed9cbdb1b2bd500c38edb359a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:29 +0000
Subject: [PATCH 41/52] fix: restore each original ID only once, and not again
 if it looks like a prefixed one

---
 gtfstidy.go | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/gtfstidy.go b/gtfstidy.go
index bd5ed33..d0bb88c 100755
--- a/gtfstidy.go
+++ b/gtfstidy.go
@@ -113,6 +113,16 @@ func parseCoords(s string) ([][2]float64, error) {
 	return ret, nil
 }
 
+// mapKeys returns the current keys of a map, which may then be changed
+// while going through them
+func mapKeys[V any](m map[string]V) []string {
+	keys := make([]string, 0, len(m))
+	for k := range m {
+		keys = append(keys, k)
+	}
+	return keys
+}
+
 func main() {
 	flag.Usage = func() {
 		fmt.Fprintf(os.Stderr, "gtfstidy - (C) 2016-2023 by Patrick Brosi <info@patrickbrosi.de>\n\nUsage:\n\n  %s [<options>] [-o <outputfile>] <input GTFS>\n\nAllowed options:\n\n", os.Args[0])
@@ -699,7 +709,8 @@ func main() {
 
 		// restore stop IDs, if requested
 		if *keepStationIds && len(prefixes) > 0 {
-			for id, s := range feed.Stops {
+			for _, id := range mapKeys(feed.Stops) {
+				s := feed.Stops[id]
 				for prefix := range prefixes {
 					if strings.HasPrefix(id, prefix) {
 						oldId := strings.TrimPrefix(id, prefix)
@@ -753,7 +764,8 @@ func main() {
 
 		// restore agency IDs, if requested
 		if *keepAgencyIds && len(prefixes) > 0 {
-			for id, s := range feed.Agencies {
+			for _, id := range mapKeys(feed.Agencies) {
+				s := feed.Agencies[id]
 				for prefix := range prefixes {
 					if strings.HasPrefix(id, prefix) {
 						oldId := strings.TrimPrefix(id, prefix)
@@ -777,7 +789,8 @@ func main() {
 
 		// restore fare attribute IDs, if requested
 		if *keepFareIds && len(prefixes) > 0 {
-			for id, s := range feed.FareAttributes {
+			for _, id := range mapKeys(feed.FareAttributes) {
+				s := feed.FareAttributes[id]
 				for prefix := range prefixes {
 					if strings.HasPrefix(id, prefix) {
 						oldId := strings.TrimPrefix(id, prefix)
@@ -806,7 +819,8 @@ func main() {
 
 		// restore service IDs, if requested
 		if *keepServiceIds && len(prefixes) > 0 {
-			for id, s := range feed.Services {
+			for _, id := range mapKeys(feed.Services) {
+				s := feed.Services[id]
 				for prefix := range prefixes {
 					if strings.HasPrefix(id, prefix) {
 						oldId := strings.TrimPrefix(id, prefix)
@@ -824,7 +838,8 @@ func main() {
 
 		// restore route IDs, if requested
 		if *keepRouteIds && len(prefixes) > 0 {
-			for id, s := range feed.Routes {
+			for _, id := range mapKeys(feed.Routes) {
+				s := feed.Routes[id]
 				for prefix := range prefixes {
 					if strings.HasPrefix(id, prefix) {
 						oldId := strings.TrimPrefix(id, prefix)
@@ -848,7 +863,8 @@ func main() {
 
 		// restore shape IDs, if requested
 		if *keepShapeIds && len(prefixes) > 0 {
-			for id, s := range feed.Shapes {
+			for _, id := range mapKeys(feed.Shapes) {
+				s := feed.Shapes[id]
 				for prefix := range prefixes {
 					if strings.HasPrefix(id, prefix) {
 						oldId := strings.TrimPrefix(id, prefix)
@@ -872,7 +888,8 @@ func main() {
 
 		// restore trip IDs, if requested
 		if *keepTripIds && len(prefixes) > 0 {
-			for id, s := range feed.Trips {
+			for _, id := range mapKeys(feed.Trips) {
+				s := feed.Trips[id]
 				for prefix := range prefixes {
 					if strings.HasPrefix(id, prefix) {
 						oldId := strings.TrimPrefix(id, prefix)
@@ -906,7 +923,8 @@ func main() {
 
 		// restore level IDs, if requested
 		if *keepLevelIds && len(prefixes) > 0 {
-			for id, s := range feed.Levels {
+			for _, id := range mapKeys(feed.Levels) {
+				s := feed.Levels[id]
 				for prefix := range prefixes {
 					if strings.HasPrefix(id, prefix) {
 						oldId := strings.TrimPrefix(id, prefix)
@@ -930,7 +948,8 @@ func main() {
 
 		// restore pathway IDs, if requested
 		if *keepPathwayIds && len(prefixes) > 0 {
-			for id, s := range feed.Pathways {
+			for _, id := range mapKeys(feed.Pathways) {
+				s := feed.Pathways[id]
 				for prefix := range prefixes {
 					if strings.HasPrefix(id, prefix) {
 						oldId := strings.TrimPrefix(id, prefix)
-- 
2.43.0


From ec9789cb9ed8e5c2bff08d431a3e8b1a600d14ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:31 +0000
Subject: [PATCH 42/52] fix: do not keep pathways under their prefixed IDs if
 the original IDs are restored, nor drop fares of the same ID

---
 gtfstidy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gtfstidy.go b/gtfstidy.go
index d0bb88c..7c75aa4 100755
--- a/gtfstidy.go
+++ b/gtfstidy.go
@@ -963,7 +963,7 @@ func main() {
 								delete(feed.PathwaysAddFlds[k], id)
 							}
 
-							feed.DeletePathway(id)
+							processors.DeletePathway(feed, id)
 						}
 						break
 					}
-- 
2.43.0


From fa1cd38c178e2cb16e2168968eb19459bf236872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:53 +0000
Subject: [PATCH 43/52] fix: do not delete stations without children when
 reclustering

---
 processors/stopreclusterer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/processors/stopreclusterer.go b/processors/stopreclusterer.go
index 3e4fcef..0668b18 100755
--- a/processors/stopreclusterer.go
+++ b/processors/stopreclusterer.go
@@ -235,7 +235,7 @@ func (m *StopReclusterer) writeCluster(cl *StopCluster, feed *gtfsparser.Feed) {
 				cursimi += m.stopSimi(p, c)
 			}
 			cursimi = cursimi / float32(len(cl.Childs))
-			if cursimi >= bestsimi {
+			if parent == nil || cursimi >= bestsimi {
 				parent = p
 				bestsimi = cursimi
 			}
-- 
2.43.0


From ffa16a6673c761531953a18662924c2f37e464c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:55 +0000
Subject: [PATCH 44/52] fix: do not leave transfers at merged stations when
 reclustering, and move their additional fields

---
 processors/stopreclusterer.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/processors/stopreclusterer.go b/processors/stopreclusterer.go
index 0668b18..5c3358d 100755
--- a/processors/stopreclusterer.go
+++ b/processors/stopreclusterer.go
@@ -253,7 +253,7 @@ func (m *StopReclusterer) writeCluster(cl *StopCluster, feed *gtfsparser.Feed) {
 			continue
 		}
 
-		for tk, tv := range feed.Transfers {
+		for tk := range feed.Transfers {
 			tk_new := tk
 			if tk.From_stop == st {
 				tk_new.From_stop = parent
@@ -262,9 +262,8 @@ func (m *StopReclusterer) writeCluster(cl *StopCluster, feed *gtfsparser.Feed) {
 				tk_new.To_stop = parent
 			}
 
-			if _, ok := feed.Transfers[tk_new]; !ok {
-				feed.Transfers[tk_new] = tv
-				delete(feed.Transfers, tk)
+			if tk_new != tk {
+				moveTransfer(feed, tk, tk_new)
 			}
 		}
 
-- 
2.43.0


From 75d95bc4251cac89752a38e3435d72a2b4617840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:56 +0000
Subject: [PATCH 45/52] fix: do not crash when reclustering a feed without
 stops

---
 processors/stopreclusterer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/processors/stopreclusterer.go b/processors/stopreclusterer.go
index 5c3358d..e1d50f4 100755
--- a/processors/stopreclusterer.go
+++ b/processors/stopreclusterer.go
@@ -82,6 +82,11 @@ func (m StopReclusterer) Run(feed *gtfsparser.Feed) {
 
 	clusters := make([]*StopCluster, 0)
 
+	if len(feed.Stops) == 0 {
+		fmt.Fprintf(os.Stdout, "done. (no stops)\n")
+		return
+	}
+
 	// maps from stops to their parent cluster id
 	parentClusterMap := make(map[*gtfs.Stop]int, 0)
 
-- 
2.43.0


From 647794091e4d74bcecb4b224f3530cac535338a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:58 +0000
Subject: [PATCH 46/52] fix: do not crash on trips without any service day in
 fuzzy mode

---
 processors/tripduplicateremover.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/processors/tripduplicateremover.go b/processors/tripduplicateremover.go
index 062e46d..a9fccfd 100755
--- a/processors/tripduplicateremover.go
+++ b/processors/tripduplicateremover.go
@@ -479,6 +479,11 @@ func (m *TripDuplicateRemover) tripCalEq(a *gtfs.Trip, b *gtfs.Trip) bool {
 		return false
 	}
 
+	if len(aDList) == 0 {
+		// neither has a service day
+		return true
+	}
+
 	if aDList[len(aDList)-1] != bDList[len(bDList)-1] {
 		return false
 	}
-- 
2.43.0


From ddc710776385315181d123251f7f3f5ea627e20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:59 +0000
Subject: [PATCH 47/52] fix: let transfers of split trips refer to the new
 trips

---
 processors/servicenonoverlapper.go | 47 ++++++++++++++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/processors/servicenonoverlapper.go b/processors/servicenonoverlapper.go
index 5d4664e..dd30788 100755
--- a/processors/servicenonoverlapper.go
+++ b/processors/servicenonoverlapper.go
@@ -94,6 +94,9 @@ func (sm ServiceNonOverlapper) Run(feed *gtfsparser.Feed) {
 	feed.TripsAddFlds = make(map[string]map[string]string)
 	feed.StopTimesAddFlds = make(map[string]map[string]map[int]string)
 
+	// the new trips for each old trip
+	newTrips := make(map[*gtfs.Trip][]*gtfs.Trip)
+
 	// write services
 	for wd, _ := range days {
 		for _, t := range day_types[wd] {
@@ -155,9 +158,53 @@ func (sm ServiceNonOverlapper) Run(feed *gtfsparser.Feed) {
 				newt.Service = feed.Services[id]
 				newt.StopTimes = append(gtfs.StopTimes{}, trip.StopTimes...)
 				feed.Trips[newt.Id] = &newt
+				newTrips[trip] = append(newTrips[trip], &newt)
 			}
 		}
 	}
 
+	sm.updateTransfers(feed, newTrips)
+
 	fmt.Fprintf(os.Stdout, "done. (created %d calendar_dates.txt entries, %d monday, %d tuesday, %d wednesday, %d thursday, %d friday, %d saturday, %d sunday types)\n", len(feed.Services), len(day_types[1]), len(day_types[2]), len(day_types[3]), len(day_types[4]), len(day_types[5]), len(day_types[6]), len(day_types[0]))
 }
+
+// Let the transfers from and to old trips be transfers from and to the new trips
+func (sm ServiceNonOverlapper) updateTransfers(feed *gtfsparser.Feed, newTrips map[*gtfs.Trip][]*gtfs.Trip) {
+	keys := make([]gtfs.TransferKey, 0)
+
+	for tk := range feed.Transfers {
+		if tk.From_trip != nil || tk.To_trip != nil {
+			keys = append(keys, tk)
+		}
+	}
+
+	for _, tk := range keys {
+		froms := []*gtfs.Trip{nil}
+		tos := []*gtfs.Trip{nil}
+
+		if tk.From_trip != nil {
+			froms = newTrips[tk.From_trip]
+		}
+
+		if tk.To_trip != nil {
+			tos = newTrips[tk.To_trip]
+		}
+
+		for _, from := range froms {
+			for _, to := range tos {
+				tkNew := tk
+				tkNew.From_trip = from
+				tkNew.To_trip = to
+				feed.Transfers[tkNew] = feed.Transfers[tk]
+
+				for k := range feed.TransfersAddFlds {
+					if v, ok := feed.TransfersAddFlds[k][tk]; ok {
+						feed.TransfersAddFlds[k][tkNew] = v
+					}
+				}
+			}
+		}
+
+		feed.DeleteTransfer(tk)
+	}
+}
-- 
2.43.0


From d5456393158c4c86831873444cb61de57293ffb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:01 +0000
Subject: [PATCH 48/52] fix: find shapes on straight lines or going west
 regardless of the number of workers

---
 processors/shapeidx.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/processors/shapeidx.go b/processors/shapeidx.go
index 19c7843..3c01433 100755
--- a/processors/shapeidx.go
+++ b/processors/shapeidx.go
@@ -37,13 +37,15 @@ func NewShapeIdx(shapes []*gtfs.Shape, mercs map[*gtfs.Shape][][]float64, cellWi
 			x, y := p[0], p[1]
 			if x < idx.llx {
 				idx.llx = x
-			} else if x > idx.urx {
+			}
+			if x > idx.urx {
 				idx.urx = x
 			}
 
 			if y < idx.lly {
 				idx.lly = y
-			} else if y > idx.ury {
+			}
+			if y > idx.ury {
 				idx.ury = y
 			}
 		}
@@ -60,8 +62,8 @@ func NewShapeIdx(shapes []*gtfs.Shape, mercs map[*gtfs.Shape][][]float64, cellWi
 		return &idx
 	}
 
-	idx.xWidth = uint(math.Ceil(idx.width / idx.cellWidth))
-	idx.yHeight = uint(math.Ceil(idx.height / idx.cellHeight))
+	idx.xWidth = uint(math.Floor(idx.width/idx.cellWidth)) + 1
+	idx.yHeight = uint(math.Floor(idx.height/idx.cellHeight)) + 1
 
 	// resize rows
 	idx.grid = make([][]map[*gtfs.Shape]bool, idx.xWidth)
-- 
2.43.0


From 003d87b91702a4ac2714970b91f9969d1ed3f3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:49 +0000
Subject: [PATCH 49/52] fix: stop reclustering missed stops in the lowest cells
 of its index, and in small feeds

---
 processors/stopclusteridx.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/processors/stopclusteridx.go b/processors/stopclusteridx.go
index 8653ac2..c933d9e 100755
--- a/processors/stopclusteridx.go
+++ b/processors/stopclusteridx.go
@@ -34,13 +34,15 @@ func NewStopClusterIdx(clusters []*StopCluster, cellWidth, cellHeight float64) *
 			x, y := latLngToWebMerc(s.Lat, s.Lon)
 			if x < idx.llx {
 				idx.llx = x
-			} else if x > idx.urx {
+			}
+			if x > idx.urx {
 				idx.urx = x
 			}
 
 			if y < idx.lly {
 				idx.lly = y
-			} else if y > idx.ury {
+			}
+			if y > idx.ury {
 				idx.ury = y
 			}
 		}
@@ -49,13 +51,15 @@ func NewStopClusterIdx(clusters []*StopCluster, cellWidth, cellHeight float64) *
 			x, y := latLngToWebMerc(s.Lat, s.Lon)
 			if x < idx.llx {
 				idx.llx = x
-			} else if x > idx.urx {
+			}
+			if x > idx.urx {
 				idx.urx = x
 			}
 
 			if y < idx.lly {
 				idx.lly = y
-			} else if y > idx.ury {
+			}
+			if y > idx.ury {
 				idx.ury = y
 			}
 		}
@@ -72,8 +76,9 @@ func NewStopClusterIdx(clusters []*StopCluster, cellWidth, cellHeight float64) *
 		return &idx
 	}
 
-	idx.xWidth = uint(math.Ceil(idx.width / idx.cellWidth))
-	idx.yHeight = uint(math.Ceil(idx.height / idx.cellHeight))
+	// the cell of the upper right corner is part of the grid
+	idx.xWidth = uint(math.Floor(idx.width/idx.cellWidth)) + 1
+	idx.yHeight = uint(math.Floor(idx.height/idx.cellHeight)) + 1
 
 	// resize rows
 	idx.grid = make([][]map[int]bool, idx.xWidth)
@@ -149,8 +154,8 @@ func (gi *StopClusterIdx) GetNeighborsByLatLon(lat float64, lon float64, d float
 
 	lx, ly := latLngToWebMerc(float32(lat), float32(lon))
 
-	swX := max(0, gi.getCellXFromX(lx)-xPerm)
-	swY := max(0, gi.getCellYFromY(ly)-yPerm)
+	swX := gi.getCellXFromX(lx)
+	swY := gi.getCellYFromY(ly)
 
 	neX := min(gi.xWidth-1, gi.getCellXFromX(lx)+xPerm)
 	neY := min(gi.yHeight-1, gi.getCellYFromY(ly)+yPerm)
-- 
2.43.0


From 891fdec8508245f8964a913cad41755aa9e9ade3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:10 +0000
Subject: [PATCH 50/52] fix: exit with an error status after a panic

---
 gtfstidy.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gtfstidy.go b/gtfstidy.go
index 7c75aa4..5091078 100755
--- a/gtfstidy.go
+++ b/gtfstidy.go
@@ -236,6 +236,7 @@ func main() {
 	defer func() {
 		if r := recover(); r != nil {
 			fmt.Fprintln(os.Stderr, "Error:", r)
+			os.Exit(1)
 		}
 	}()
 
-- 
2.43.0


From 522eda0c764b1cb07b11fdb0a15e5834616aba47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:15 +0000
Subject: [PATCH 51/52] fix: keep the attributions of trips whose dates all
 belong to equal trips

---
 processors/tripduplicateremover.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/processors/tripduplicateremover.go b/processors/tripduplicateremover.go
index a9fccfd..bcce0dd 100755
--- a/processors/tripduplicateremover.go
+++ b/processors/tripduplicateremover.go
@@ -292,6 +292,18 @@ func (m *TripDuplicateRemover) combineEqTrips(feed *gtfsparser.Feed, ref *gtfs.T
 	}
 }
 
+// Move the attributions of a trip to another one
+func (m *TripDuplicateRemover) moveAttributions(from *gtfs.Trip, to *gtfs.Trip) {
+	if from.Attributions == nil {
+		return
+	}
+	if to.Attributions == nil {
+		sl := make([]*gtfs.Attribution, 0)
+		to.Attributions = &sl
+	}
+	*to.Attributions = append(*to.Attributions, *from.Attributions...)
+}
+
 // Exclude a list of overlaps from a trip
 func (m *TripDuplicateRemover) excludeTrips(feed *gtfsparser.Feed, ref *gtfs.Trip, overlaps []Overlap) {
 	for _, o := range overlaps {
@@ -320,6 +332,7 @@ func (m *TripDuplicateRemover) excludeTrips(feed *gtfsparser.Feed, ref *gtfs.Tri
 
 		// the service is now empty
 		if len(m.serviceList[ref.Service]) == 0 {
+			m.moveAttributions(ref, overlaps[0].Trip)
 			feed.DeleteTrip(ref.Id)
 			m.serviceRefs[ref.Service]--
 		}
@@ -352,6 +365,7 @@ func (m *TripDuplicateRemover) excludeTrips(feed *gtfsparser.Feed, ref *gtfs.Tri
 
 		// the service is empty
 		if len(m.serviceList[newService]) == 0 {
+			m.moveAttributions(ref, overlaps[0].Trip)
 			feed.DeleteTrip(ref.Id)
 			m.serviceRefs[ref.Service]--
 			return
-- 
2.43.0


From 845e7b3020ce8da5a5b51cc2d2274d2191789765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:08 +0000
Subject: [PATCH 52/52] fix: keep additional fields of trips when creating
 non-overlapping services

---
 processors/servicenonoverlapper.go | 32 ++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/processors/servicenonoverlapper.go b/processors/servicenonoverlapper.go
index dd30788..50c0e69 100755
--- a/processors/servicenonoverlapper.go
+++ b/processors/servicenonoverlapper.go
@@ -91,8 +91,15 @@ func (sm ServiceNonOverlapper) Run(feed *gtfsparser.Feed) {
 
 	feed.Services = make(map[string]*gtfs.Service, 0)
 	feed.Trips = make(map[string]*gtfs.Trip, 0)
-	feed.TripsAddFlds = make(map[string]map[string]string)
-	feed.StopTimesAddFlds = make(map[string]map[string]map[int]string)
+
+	// the additional fields of the old trips
+	tripsAddFlds := feed.TripsAddFlds
+	stopTimesAddFlds := feed.StopTimesAddFlds
+	frequenciesAddFlds := feed.FrequenciesAddFlds
+
+	feed.TripsAddFlds = emptyAddFlds(tripsAddFlds)
+	feed.StopTimesAddFlds = emptyAddFlds(stopTimesAddFlds)
+	feed.FrequenciesAddFlds = emptyAddFlds(frequenciesAddFlds)
 
 	// the new trips for each old trip
 	newTrips := make(map[*gtfs.Trip][]*gtfs.Trip)
@@ -158,6 +165,9 @@ func (sm ServiceNonOverlapper) Run(feed *gtfsparser.Feed) {
 				newt.Service = feed.Services[id]
 				newt.StopTimes = append(gtfs.StopTimes{}, trip.StopTimes...)
 				feed.Trips[newt.Id] = &newt
+				copyAddFlds(tripsAddFlds, trip.Id, feed.TripsAddFlds, newt.Id)
+				copyAddFlds(stopTimesAddFlds, trip.Id, feed.StopTimesAddFlds, newt.Id)
+				copyAddFlds(frequenciesAddFlds, trip.Id, feed.FrequenciesAddFlds, newt.Id)
 				newTrips[trip] = append(newTrips[trip], &newt)
 			}
 		}
@@ -168,6 +178,24 @@ func (sm ServiceNonOverlapper) Run(feed *gtfsparser.Feed) {
 	fmt.Fprintf(os.Stdout, "done. (created %d calendar_dates.txt entries, %d monday, %d tuesday, %d wednesday, %d thursday, %d friday, %d saturday, %d sunday types)\n", len(feed.Services), len(day_types[1]), len(day_types[2]), len(day_types[3]), len(day_types[4]), len(day_types[5]), len(day_types[6]), len(day_types[0]))
 }
 
+// Get the same additional fields, without any values
+func emptyAddFlds[V any](flds map[string]map[string]V) map[string]map[string]V {
+	ret := make(map[string]map[string]V)
+	for fld := range flds {
+		ret[fld] = make(map[string]V)
+	}
+	return ret
+}
+
+// Copy the additional fields of an entity
+func copyAddFlds[V any](from map[string]map[string]V, fromId string, to map[string]map[string]V, toId string) {
+	for fld := range from {
+		if val, ok := from[fld][fromId]; ok {
+			to[fld][toId] = val
+		}
+	}
+}
+
 // Let the transfers from and to old trips be transfers from and to the new trips
 func (sm ServiceNonOverlapper) updateTransfers(feed *gtfsparser.Feed, newTrips map[*gtfs.Trip][]*gtfs.Trip) {
 	keys := make([]gtfs.TransferKey, 0)
-- 
2.43.0

