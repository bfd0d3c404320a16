#!/bin/bash
# Builds gtfstidy from the tree in cwd and runs it on feeds in a scratch directory.
export HOME="${HOME:-/root}"
export PATH="/opt/veriftools/go1.27.3/bin:$PATH"
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod
export GOCACHE="${GOCACHE:-/root/.cache/go-build}"
d=$(mktemp -d)
trap 'rm -r "$d"' EXIT
go build -buildvcs=false -o "$d/gtfstidy" . || exit 2
cd "$d" || exit 2

# a small feed in directory $1
feed() {
	mkdir "$1"
	printf 'agency_id,agency_name,agency_url,agency_timezone\nag,Agency,http://x.y,Europe/Berlin\n' > "$1/agency.txt"
	printf 'stop_id,stop_name,stop_lat,stop_lon\na,A,48.0,7.8\nb,B,48.1,7.9\nc,C,49.0,9.0\n' > "$1/stops.txt"
	printf 'route_id,agency_id,route_short_name,route_type\nr,ag,1,3\n' > "$1/routes.txt"
	printf 'service_id,monday,tuesday,wednesday,thursday,friday,saturday,sunday,start_date,end_date\ns,1,1,1,1,1,1,1,20240101,20241231\n' > "$1/calendar.txt"
	printf 'trip_id,route_id,service_id\nt,r,s\n' > "$1/trips.txt"
	printf 'trip_id,stop_id,stop_sequence,arrival_time,departure_time\nt,a,1,08:00:00,08:00:00\nt,b,2,08:30:00,08:30:00\nt,c,3,10:00:00,10:00:00\n' > "$1/stop_times.txt"
}
