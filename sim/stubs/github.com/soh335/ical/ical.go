// Package ical is a stand-in for github.com/soh335/ical (not available
// offline). It has the fields and the Encode behaviour the repository relies
// on; its output format was matched against /repo/suriya/testdata/*.ical.
package ical

import (
	"bufio"
	"io"
	"time"
)

const (
	stampLayout    = "20060102T150405Z"
	dateLayout     = "20060102"
	dateTimeLayout = "20060102T150405"
)

type VComponent interface {
	EncodeIcal(w io.Writer) error
}

type VCalendar struct {
	VERSION          string
	PRODID           string
	URL              string
	NAME             string
	X_WR_CALNAME     string
	DESCRIPTION      string
	X_WR_CALDESC     string
	TIMEZONE_ID      string
	X_WR_TIMEZONE    string
	REFRESH_INTERVAL string
	X_PUBLISHED_TTL  string
	COLOR            string
	CALSCALE         string
	METHOD           string
	VComponent       []VComponent
}

func NewBasicVCalendar() *VCalendar {
	return &VCalendar{VERSION: "2.0", CALSCALE: "GREGORIAN"}
}

func (c *VCalendar) Encode(w io.Writer) error {
	b := bufio.NewWriter(w)
	put := func(s string) { b.WriteString(s + "\r\n") }
	opt := func(k, v string) {
		if v != "" {
			put(k + v)
		}
	}
	put("BEGIN:VCALENDAR")
	put("VERSION:" + c.VERSION)
	opt("PRODID:", c.PRODID)
	opt("URL:", c.URL)
	opt("NAME:", c.NAME)
	opt("X-WR-CALNAME:", c.X_WR_CALNAME)
	opt("DESCRIPTION:", c.DESCRIPTION)
	opt("X-WR-CALDESC:", c.X_WR_CALDESC)
	opt("TIMEZONE-ID:", c.TIMEZONE_ID)
	opt("X-WR-TIMEZONE:", c.X_WR_TIMEZONE)
	opt("REFRESH-INTERVAL;VALUE=DURATION:", c.REFRESH_INTERVAL)
	opt("X-PUBLISHED-TTL:", c.X_PUBLISHED_TTL)
	opt("COLOR:", c.COLOR)
	opt("CALSCALE:", c.CALSCALE)
	opt("METHOD:", c.METHOD)
	if err := b.Flush(); err != nil {
		return err
	}
	for _, v := range c.VComponent {
		if err := v.EncodeIcal(w); err != nil {
			return err
		}
	}
	put("END:VCALENDAR")
	return b.Flush()
}

type VEvent struct {
	UID         string
	DTSTAMP     time.Time
	DTSTART     time.Time
	DTEND       time.Time
	SUMMARY     string
	DESCRIPTION string
	TZID        string
	AllDay      bool
}

func (e *VEvent) EncodeIcal(w io.Writer) error {
	b := bufio.NewWriter(w)
	put := func(s string) { b.WriteString(s + "\r\n") }
	layout, typ := dateTimeLayout, "DATE-TIME"
	if e.AllDay {
		layout, typ = dateLayout, "DATE"
	}
	tz := ""
	if e.TZID != "" && e.TZID != "UTC" {
		tz = ";TZID=" + e.TZID
	}
	put("BEGIN:VEVENT")
	put("DTSTAMP:" + e.DTSTAMP.UTC().Format(stampLayout))
	put("UID:" + e.UID)
	if e.TZID != "" && e.TZID != "UTC" {
		put("TZID:" + e.TZID)
	}
	put("SUMMARY:" + e.SUMMARY)
	if e.DESCRIPTION != "" {
		put("DESCRIPTION:" + e.DESCRIPTION)
	}
	put("DTSTART" + tz + ";VALUE=" + typ + ":" + e.DTSTART.Format(layout))
	put("DTEND" + tz + ";VALUE=" + typ + ":" + e.DTEND.Format(layout))
	put("END:VEVENT")
	return b.Flush()
}
