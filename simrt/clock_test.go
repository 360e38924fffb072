package simrt

import (
	"testing"
	"testing/synctest"
	"time"
)

func TestReading(t *testing.T) {
	synctest.Test(t, func(t *testing.T) {
		for _, d := range []time.Duration{0, 1, -1, time.Second, -time.Second, 700 * time.Millisecond, -700 * time.Millisecond, 400 * 24 * time.Hour, -(400*24*time.Hour + 999999999)} {
			a := reading(time.Now(), 0)
			if !a.Round(0).Equal(time.Now()) {
				t.Fatal("wall clock")
			}
			time.Sleep(1234567891)
			b := reading(time.Now(), d)
			if b.Sub(a) != 1234567891 || !a.Before(b) {
				t.Fatal("monotonic reading moved", b.Sub(a))
			}
			if b.Round(0).Sub(a.Round(0)) != d+1234567891 {
				t.Fatal("wall clock", d, b.Round(0).Sub(a.Round(0)))
			}
			if got := a.Add(time.Hour).Round(0).Sub(a.Round(0)); got != time.Hour {
				t.Fatal(got)
			}
		}
	})
}
