package proxy

import (
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/internal/vsym"
)

// every 64-bit timestamp
//gosym: quick=60 thorough=60 reach=ok
func ZZC28_Views() {
	ts := Timestamp(vsym.Int64("ts"))
	n := ts.ToNanos()
	vsym.Assert(n == int64(ts), "another value")
	vsym.Assert(ts.ToMicros() == n/1000, "microseconds are not the value divided by 1000")
	vsym.Assert(ts.ToMillis() == n/1000000, "milliseconds are not the value divided by 1000000")
	vsym.Assert(ts.ToTime().UnixNano() == n, "the time is another one")
	us := vsym.Int64("us")
	vsym.Assume(us > -(1<<62)/1000 && us < 1<<62/1000)
	vsym.Assert(Microseconds(us).ToNanos() == us*1000, "another value")
	vsym.Assert(Microseconds(us).ToMicros() == us, "microseconds do not come back")
	d := vsym.Int64("d")
	vsym.Assert(ts.Add(time.Duration(d)).ToNanos() == n+d, "adding a duration gives another value")
	vsym.Assert(ts.IsValid() == (n > 0), "valid for a value that is not positive, or the other way")
	vsym.Reach("ok")
}

func zzTrip(ts Timestamp) {
	js, err := ts.MarshalJSON()
	vsym.Assert(err == nil, "the timestamp cannot be written")
	back := Timestamp(7)
	vsym.Assert(back.UnmarshalJSON(js) == nil, "what was written cannot be read")
	vsym.Assert(back == ts, "another value was read back")
	vsym.Reach("ok")
}

// zzNanos is an arbitrary number of nanoseconds of a second: the number of leading zeros is chosen, the digits after them are arbitrary.
func zzNanos() int64 {
	var ns int64
	if n := vsym.Choose("digits", 10); n > 0 {
		ns = 1 + int64(vsym.Upto("first", 8))
		for i := 1; i < n; i++ {
			ns = ns*10 + int64(vsym.Upto("digit", 9))
		}
	}
	return ns
}

// zzMoment is an arbitrary moment of a day (of 1970 plus day days) at an offset from UTC.
func zzMoment(day, offset int64) Timestamp {
	sec := int64(vsym.Upto("hour", 23))*3600 + int64(vsym.Upto("minute", 59))*60 + int64(vsym.Upto("second", 59))
	return Timestamp((day*86400+sec-offset)*1000000000 + zzNanos())
}

var zzDays = []int64{1, 59, 60, 789, 10956, 11015, 11016, 16800, 17897, 19416, 20000, 47541, 47542, 106750, -1, -365, -719, -25567, -106750}

// every nanosecond of 19 days from 1677 to 2262, and of the very first second of 1970, in UTC
//gosym: quick=120 thorough=600 reach=ok realtime
func ZZC28_Moments() {
	vsym.Option("nomerge", 1)
	time.Local = time.UTC
	i := vsym.Choose("day", len(zzDays)+1)
	if i == len(zzDays) {
		zzTrip(Timestamp(zzNanos()))
		return
	}
	zzTrip(zzMoment(zzDays[i], 0))
}

// every nanosecond of 5 days, in every zone whose offset is a whole number of minutes less than a day
//gosym: quick=120 thorough=600 reach=ok realtime
func ZZC28_Zones() {
	vsym.Option("nomerge", 1)
	offset := int64(vsym.Upto("zonehours", 23))*3600 + int64(vsym.Upto("zoneminutes", 59))*60
	if vsym.Choose("west", 2) == 1 {
		offset = -offset
	}
	time.Local = time.FixedZone("zone", int(offset))
	zzTrip(zzMoment([]int64{2, 789, 19416, 20000, 106749}[vsym.Choose("day", 5)], offset))
}

// every second of every day from 1970 to 1976 and of every 50th day from 1677 to 2262; thorough: every nanosecond of every 5th day of them
//gosym: quick=120 thorough=850 reach=ok realtime
func ZZC28_Days() {
	vsym.Option("nomerge", 1)
	time.Local = time.UTC
	var day int64
	if vsym.Choose("range", 2) == 0 {
		day = int64(vsym.Choose("day", 2192))
	} else {
		day = int64(vsym.Choose("day", 4270))*50 - 106750
	}
	if vsym.Thorough() && day%5 == 0 && day != 0 {
		zzTrip(zzMoment(day, 0))
		return
	}
	sec := int64(vsym.Upto("hour", 23))*3600 + int64(vsym.Upto("minute", 59))*60 + int64(vsym.Upto("second", 59))
	zzTrip(Timestamp((day*86400 + sec) * 1000000000))
}
