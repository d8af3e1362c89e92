From 379f4fa735027d112ce3357c55bf8726327c362d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:18 +0000
Subject: [PATCH 01/22] fix: report a failed decode of an embedded file on
 every access, not only the first

---
 data.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/data.go b/data.go
index 0306da8..df93dcd 100644
--- a/data.go
+++ b/data.go
@@ -34,6 +34,7 @@ type _escFile struct {
 
 	once sync.Once
 	data []byte
+	err  error
 	name string
 }
 
@@ -50,7 +51,6 @@ func (_escStaticFS) prepare(name string) (*_escFile, error) {
 	if !present {
 		return nil, os.ErrNotExist
 	}
-	var err error
 	f.once.Do(func() {
 		f.name = path.Base(name)
 		if f.size == 0 {
@@ -58,14 +58,14 @@ func (_escStaticFS) prepare(name string) (*_escFile, error) {
 		}
 		var gr *gzip.Reader
 		b64 := base64.NewDecoder(base64.StdEncoding, bytes.NewBufferString(f.compressed))
-		gr, err = gzip.NewReader(b64)
-		if err != nil {
+		gr, f.err = gzip.NewReader(b64)
+		if f.err != nil {
 			return
 		}
-		f.data, err = ioutil.ReadAll(gr)
+		f.data, f.err = ioutil.ReadAll(gr)
 	})
-	if err != nil {
-		return nil, err
+	if f.err != nil {
+		return nil, f.err
 	}
 	return f, nil
 }
-- 
2.43.0


From 1377125ac6e72cc8c46aa6639e1a7723bdcc8ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:18 +0000
Subject: [PATCH 02/22] fix: FSByte returns a copy, callers could overwrite the
 shared embedded data

---
 data.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/data.go b/data.go
index df93dcd..870b50f 100644
--- a/data.go
+++ b/data.go
@@ -161,7 +161,8 @@ func FSByte(useLocal bool, name string) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	return f.data, nil
+	// a copy, the decoded data is shared by all callers
+	return append([]byte(nil), f.data...), nil
 }
 
 // FSMustByte is the same as FSByte, but panics if name is not present.
-- 
2.43.0


From dca222ad68aa72ae2e52cb1918f2af61612d847b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:18 +0000
Subject: [PATCH 03/22] fix: FSByte closes the local file it opened

---
 data.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/data.go b/data.go
index 870b50f..817dcf1 100644
--- a/data.go
+++ b/data.go
@@ -155,6 +155,7 @@ func FSByte(useLocal bool, name string) ([]byte, error) {
 		if err != nil {
 			return nil, err
 		}
+		defer f.Close()
 		return ioutil.ReadAll(f)
 	}
 	f, err := _escStatic.prepare(name)
-- 
2.43.0


From 12cb7ad7409659f7bcef67953735da7419c79f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:18 +0000
Subject: [PATCH 04/22] fix: GetAstroMoons skips a year it has no data for
 instead of dropping all later years

---
 astro_moon.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/astro_moon.go b/astro_moon.go
index dc1b363..fd09567 100644
--- a/astro_moon.go
+++ b/astro_moon.go
@@ -58,7 +58,7 @@ func GetAstroMoons(fromDate time.Time, toDate time.Time) (moons []AstroMoon) {
 			if verbose {
 				log.Printf("%v, %s\n", err, filepath)
 			}
-			return moons
+			continue
 		}
 
 		var resp AerisResp
-- 
2.43.0


From 440cbd294853b32db4a84231cbb33d012a3bb913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:18 +0000
Subject: [PATCH 05/22] fix: look up the UTC years of a date range given in
 another zone

---
 astro_moon.go | 3 ++-
 cal_day.go    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/astro_moon.go b/astro_moon.go
index fd09567..e97ba6f 100644
--- a/astro_moon.go
+++ b/astro_moon.go
@@ -45,7 +45,8 @@ func (m AstroMoon) IcalEvent() ical.VEvent {
 func GetAstroMoons(fromDate time.Time, toDate time.Time) (moons []AstroMoon) {
 	var err error
 
-	for year := fromDate.Year(); year <= toDate.Year(); year++ {
+	// the data files hold UTC years
+	for year := fromDate.UTC().Year(); year <= toDate.UTC().Year(); year++ {
 
 		// filenames are astro-YYYY.json
 
diff --git a/cal_day.go b/cal_day.go
index 2315290..b199229 100644
--- a/cal_day.go
+++ b/cal_day.go
@@ -164,7 +164,8 @@ func GetCalDays(fromDate time.Time, toDate time.Time) []CalDay {
 		cal_days = mergeIntoCalDays(cal_days, d)
 	}
 
-	for year := fromDate.Year(); year <= toDate.Year(); year++ {
+	// the generated dates are in UTC
+	for year := fromDate.UTC().Year(); year <= toDate.UTC().Year(); year++ {
 		for _, d := range GenerateSolarYear(year) {
 			if d.GetDate().Before(fromDate) || d.GetDate().After(toDate) {
 				continue
-- 
2.43.0


From c6646ef9899069e28f3fb6227c7c8e5cd4317b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:18 +0000
Subject: [PATCH 06/22] fix: cycle positions of years before 1414 and 1794

---
 suriya_year.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/suriya_year.go b/suriya_year.go
index 13ea5bb..447d969 100644
--- a/suriya_year.go
+++ b/suriya_year.go
@@ -134,12 +134,12 @@ func (su SuriyaYear) Has_Carried_Adhikavara() bool {
 
 // Determine the position in the 57 year cycle. Assume 1984 = 1, 2040 = 57, 2041 = 1.
 func (su SuriyaYear) AdhikavaraCyclePos() int {
-	return int(math.Abs(float64(1984-57*10-su.Year)))%57 + 1
+	return ((su.Year-1984)%57+57)%57 + 1
 }
 
 // Determine the position in the 19 year cycle.
 func (su SuriyaYear) AdhikamasaCyclePos() int {
-	return int(math.Abs(float64(1984-19*10-su.Year)))%19 + 1
+	return ((su.Year-1984)%19+19)%19 + 1
 }
 
 // Years since last adhikamāsa.
-- 
2.43.0


From a6f2f95ecb176ea60f45a0293420f8bea6e60bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:18 +0000
Subject: [PATCH 07/22] fix: NextUposatha steps by calendar days, 24 hour steps
 drift in zones with DST

---
 uposatha_moon.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uposatha_moon.go b/uposatha_moon.go
index cbfa0af..e102edf 100644
--- a/uposatha_moon.go
+++ b/uposatha_moon.go
@@ -157,7 +157,7 @@ func (last_uposatha UposathaMoon) NextUposatha() UposathaMoon {
 		}
 	}
 
-	nu.Date = lu.Date.Add(time.Duration(nu.U_Days) * time.Hour * 24)
+	nu.Date = lu.Date.AddDate(0, 0, nu.U_Days)
 
 	return nu
 }
-- 
2.43.0


From b7df27b15fe4d4678b900002e65cbac3893b59ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:18 +0000
Subject: [PATCH 08/22] fix: all-day ical events end on the next calendar day
 also when DST changes

---
 calendar_event.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/calendar_event.go b/calendar_event.go
index 576f5dc..a8494e2 100644
--- a/calendar_event.go
+++ b/calendar_event.go
@@ -19,7 +19,7 @@ func icalEvent(d CalendarEvent) ical.VEvent {
 		UID:     uuid.NewV4().String(),
 		DTSTAMP: time.Now(),
 		DTSTART: d.GetDate(),
-		DTEND:   d.GetDate().Add(24 * time.Hour),
+		DTEND:   d.GetDate().AddDate(0, 0, 1),
 		SUMMARY: d.String(),
 		AllDay:  true,
 		TZID:    d.GetDate().Location().String(), // TODO: is the timezone going to mess up the dates?
-- 
2.43.0


From bf40453bca4669e15302d8651464a47d38984045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:18 +0000
Subject: [PATCH 09/22] fix: adding to a CalDay no longer changes copies of the
 day

---
 cal_day.go     | 18 +++---------------
 event.go       |  2 +-
 major_event.go |  2 +-
 3 files changed, 5 insertions(+), 17 deletions(-)

diff --git a/cal_day.go b/cal_day.go
index b199229..5deb6ae 100644
--- a/cal_day.go
+++ b/cal_day.go
@@ -35,11 +35,7 @@ func (c CalDay) GetUposathaMoon() UposathaMoon {
 }
 
 func (c *CalDay) SetUposathaMoon(m UposathaMoon) {
-	if len(c.UposathaMoon) != 0 {
-		c.UposathaMoon[0] = m
-	} else {
-		c.UposathaMoon = append(c.UposathaMoon, m)
-	}
+	c.UposathaMoon = []UposathaMoon{m} // a new slice, copies of the day share the old one
 }
 
 func (c CalDay) GetAstroMoon() AstroMoon {
@@ -53,11 +49,7 @@ func (c CalDay) GetAstroMoon() AstroMoon {
 }
 
 func (c *CalDay) SetAstroMoon(m AstroMoon) {
-	if len(c.AstroMoon) != 0 {
-		c.AstroMoon[0] = m
-	} else {
-		c.AstroMoon = append(c.AstroMoon, m)
-	}
+	c.AstroMoon = []AstroMoon{m} // a new slice, copies of the day share the old one
 }
 
 func (c CalDay) GetHalfMoon() HalfMoon {
@@ -71,11 +63,7 @@ func (c CalDay) GetHalfMoon() HalfMoon {
 }
 
 func (c *CalDay) SetHalfMoon(m HalfMoon) {
-	if len(c.HalfMoon) != 0 {
-		c.HalfMoon[0] = m
-	} else {
-		c.HalfMoon = append(c.HalfMoon, m)
-	}
+	c.HalfMoon = []HalfMoon{m} // a new slice, copies of the day share the old one
 }
 
 func (c CalDay) String() string {
diff --git a/event.go b/event.go
index d02549e..7bb65a1 100644
--- a/event.go
+++ b/event.go
@@ -19,7 +19,7 @@ type Event struct {
 
 func (e Event) AddToDay(day_p *CalDay) {
 	day_p.Date = e.Date
-	day_p.Events = append(day_p.Events, e)
+	day_p.Events = append(day_p.Events[:len(day_p.Events):len(day_p.Events)], e)
 	return
 }
 
diff --git a/major_event.go b/major_event.go
index 2ba7684..524c41d 100644
--- a/major_event.go
+++ b/major_event.go
@@ -19,7 +19,7 @@ type MajorEvent Event
 
 func (e MajorEvent) AddToDay(day_p *CalDay) {
 	day_p.Date = e.Date
-	day_p.MajorEvents = append(day_p.MajorEvents, e)
+	day_p.MajorEvents = append(day_p.MajorEvents[:len(day_p.MajorEvents):len(day_p.MajorEvents)], e)
 	return
 }
 
-- 
2.43.0


From 5bbc92227aec7de7cd1040b8365c581bf74a90f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:18 +0000
Subject: [PATCH 10/22] fix: the command line fails when its output could not
 be written

---
 suriya/suriya.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/suriya/suriya.go b/suriya/suriya.go
index 72196fa..071d5ae 100644
--- a/suriya/suriya.go
+++ b/suriya/suriya.go
@@ -72,15 +72,19 @@ func actionCalDays(c *cli.Context) error {
 			log.Printf("%v\n", err)
 			os.Exit(1)
 		}
-		defer f.Close()
-
 		_, err = f.WriteString(str)
+		if cerr := f.Close(); err == nil {
+			err = cerr
+		}
 		if err != nil {
 			log.Printf("%v\n", err)
 			os.Exit(1)
 		}
 	} else {
-		fmt.Printf("%s\n", str)
+		if _, err := fmt.Printf("%s\n", str); err != nil {
+			log.Printf("%v\n", err)
+			os.Exit(1)
+		}
 	}
 
 	return nil
@@ -175,15 +179,19 @@ func actionIcal(c *cli.Context) error {
 			log.Printf("%v\n", err)
 			os.Exit(1)
 		}
-		defer f.Close()
-
 		_, err = f.WriteString(str)
+		if cerr := f.Close(); err == nil {
+			err = cerr
+		}
 		if err != nil {
 			log.Printf("%v\n", err)
 			os.Exit(1)
 		}
 	} else {
-		fmt.Printf("%s", str)
+		if _, err := fmt.Printf("%s", str); err != nil {
+			log.Printf("%v\n", err)
+			os.Exit(1)
+		}
 	}
 
 	return nil
-- 
2.43.0


From 24d3d44f308bc3205e69d537ae0c54336ff628fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:18 +0000
Subject: [PATCH 11/22] fix: default from and to dates are of the same year

---
 suriya/suriya.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/suriya/suriya.go b/suriya/suriya.go
index 071d5ae..50f04af 100644
--- a/suriya/suriya.go
+++ b/suriya/suriya.go
@@ -21,6 +21,7 @@ func cliInit(c *cli.Context) (dates map[string]time.Time) {
 	var err error
 
 	dates = make(map[string]time.Time)
+	thisYear := time.Now().Year() // read once, the year may turn between two readings
 
 	if len(c.String("from")) > 0 {
 		dates["fromDate"], err = time.Parse("2006-01-02", c.String("from"))
@@ -29,7 +30,7 @@ func cliInit(c *cli.Context) (dates map[string]time.Time) {
 			os.Exit(1)
 		}
 	} else {
-		dates["fromDate"] = time.Date(time.Now().Year(), 1, 1, 0, 0, 0, 0, time.UTC)
+		dates["fromDate"] = time.Date(thisYear, 1, 1, 0, 0, 0, 0, time.UTC)
 	}
 
 	if len(c.String("to")) > 0 {
@@ -39,7 +40,7 @@ func cliInit(c *cli.Context) (dates map[string]time.Time) {
 			os.Exit(1)
 		}
 	} else {
-		dates["toDate"] = time.Date(time.Now().Year(), 12, 31, 0, 0, 0, 0, time.UTC)
+		dates["toDate"] = time.Date(thisYear, 12, 31, 0, 0, 0, 0, time.UTC)
 	}
 
 	return dates
-- 
2.43.0


From 9570c551add270fdd4903c3f90e663fef6af7e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:18 +0000
Subject: [PATCH 12/22] fix: years-csv uses the renamed BE_Year field

---
 utils/years-csv.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utils/years-csv.go b/utils/years-csv.go
index d59d8b8..8e29899 100644
--- a/utils/years-csv.go
+++ b/utils/years-csv.go
@@ -37,9 +37,9 @@ func yearsCsvSimple(firstYear int, lastYear int) (csvString string) {
 			dV = strconv.Itoa(su.DeltaAdhikavara())
 		}
 
-		csvString = csvString + fmt.Sprintf("%d,%d,%d,%s,%d,%s,%s\n",
+		csvString = csvString + fmt.Sprintf("%d,%d,%d,%s,%d,%s,%d,%d,%d\n",
 			su.Year,
-			su.BE_year,
+			su.BE_Year,
 			su.AdhikamasaCyclePos(),
 			dM,
 			su.AdhikavaraCyclePos(),
@@ -159,7 +159,7 @@ func yearsCsv(firstYear int, lastYear int) (csvString string) {
 
 		csvString = csvString + fmt.Sprintf(fmtStr,
 			su.Year,
-			su.BE_year,
+			su.BE_Year,
 			su.Kammacubala,
 			su.Avoman,
 			su.Tithi,
-- 
2.43.0


From 0a774edfb56bcc195c4a74267bea9d2e65e33018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:18 +0000
Subject: [PATCH 13/22] fix: years-csv fails when years.csv could not be
 written

---
 utils/years-csv.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/utils/years-csv.go b/utils/years-csv.go
index 8e29899..19f9995 100644
--- a/utils/years-csv.go
+++ b/utils/years-csv.go
@@ -180,8 +180,6 @@ func yearsCsv(firstYear int, lastYear int) (csvString string) {
 
 func main() {
 	file, err := os.Create("years.csv")
-	defer file.Close()
-
 	if err != nil {
 		panic(err)
 		return
@@ -190,8 +188,12 @@ func main() {
 	suriya.UseExceptions = false
 
 	n, err := io.WriteString(file, yearsCsv(1970, 2041))
+	if cerr := file.Close(); err == nil {
+		err = cerr
+	}
 	if err != nil {
 		fmt.Println(n, err)
+		os.Exit(1)
 	}
 
 }
-- 
2.43.0


From a12fdbad9f9b4d72147b7205d8f0f4c0a8144e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:18 +0000
Subject: [PATCH 14/22] fix: get-astromoons.sh sends at most 10 requests per
 batch

---
 utils/get-astromoons.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/get-astromoons.sh b/utils/get-astromoons.sh
index 5fd2a5a..a6952fd 100755
--- a/utils/get-astromoons.sh
+++ b/utils/get-astromoons.sh
@@ -28,7 +28,7 @@ while [ $year -le $to_year ]; do
     echo -n "$year ... "
 
     # Stay under 10 requests per minute
-    if [ $reqPerMin -gt 10 ]; then
+    if [ $reqPerMin -ge 10 ]; then
         d=$(expr `date +%s` - $lastBatchStart)
         # +1s for error
         while [ $d -lt 61 ]; do
-- 
2.43.0


From 7a411a963f5a834de3e038f2d98e6619db32cb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:18 +0000
Subject: [PATCH 15/22] fix: get-astromoons.sh keeps the old file and reports
 it when a download fails

---
 utils/get-astromoons.sh | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/utils/get-astromoons.sh b/utils/get-astromoons.sh
index a6952fd..7c5ed80 100755
--- a/utils/get-astromoons.sh
+++ b/utils/get-astromoons.sh
@@ -16,6 +16,8 @@ fi
 # There are ~208 moon records per year. API allows max 250 per request.
 limit=250
 
+failed=0
+
 from_year=$1
 to_year=$2
 place="london,uk" # for UTC time
@@ -40,10 +42,18 @@ while [ $year -le $to_year ]; do
         reqPerMin=0
     fi
 
-    curl -s "http://api.aerisapi.com/sunmoon/moonphases/$place?from=$year/01/01&to=$year/12/31&limit=$limit&client_id=$CLIENT_ID&client_secret=$CLIENT_SECRET" > astro-$year.json
+    # Keep the file of an earlier run unless the download is complete
+    if curl -s -f "http://api.aerisapi.com/sunmoon/moonphases/$place?from=$year/01/01&to=$year/12/31&limit=$limit&client_id=$CLIENT_ID&client_secret=$CLIENT_SECRET" > astro-$year.json.part &&
+            mv astro-$year.json.part astro-$year.json; then
+        echo "OK"
+    else
+        rm -f astro-$year.json.part
+        echo "FAILED"
+        failed=1
+    fi
     ((year += 1))
     ((reqPerMin += 1))
-
-    echo "OK"
 done
 
+exit $failed
+
-- 
2.43.0


From b6c75b68543072d74085b7b8f24670b236a178f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:24 +0000
Subject: [PATCH 16/22] fix: DegreeToRal of negative angles, the sun was 30
 degrees off before the solar new year

---
 helpers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/helpers.go b/helpers.go
index f4f2f7a..740e71a 100644
--- a/helpers.go
+++ b/helpers.go
@@ -13,7 +13,7 @@ func DegreeToRal(degree float64) (x, y, z int) {
 	x = int(math.Floor(degree / 30))
 
 	// the remainder degrees
-	y = int(math.Floor(degree)) % 30
+	y = int(math.Floor(degree)) - 30*x
 
 	// plus the arcmins
 	z = int(math.Floor((degree - math.Floor(degree)) * 60))
-- 
2.43.0


From 330b301c6de5d7fa54d35863be0d61ecc784092b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:56 +0000
Subject: [PATCH 17/22] fix: name of an embedded file no longer depends on the
 spelling of the first path used to open it

---
 data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data.go b/data.go
index 817dcf1..a1d8d90 100644
--- a/data.go
+++ b/data.go
@@ -52,7 +52,7 @@ func (_escStaticFS) prepare(name string) (*_escFile, error) {
 		return nil, os.ErrNotExist
 	}
 	f.once.Do(func() {
-		f.name = path.Base(name)
+		f.name = path.Base(path.Clean(name))
 		if f.size == 0 {
 			return
 		}
-- 
2.43.0


From 8c40e51a9f229fb6e6b2937f84a269e823388fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:00 +0000
Subject: [PATCH 18/22] fix: adding days where daylight saving starts at
 midnight gave a time on the day before

---
 cal_day.go        |  2 +-
 calendar_event.go |  2 +-
 helpers.go        | 13 +++++++++++++
 uposatha_moon.go  |  2 +-
 4 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/cal_day.go b/cal_day.go
index 5deb6ae..940db58 100644
--- a/cal_day.go
+++ b/cal_day.go
@@ -102,7 +102,7 @@ func AddHalfMoonDays(cal_days []CalDay) []CalDay {
 		// If there is an uposatha on the day
 		if len(day.UposathaMoon) != 0 {
 			// Eight days from its date
-			eighth_day := CalDay{Date: day.Date.AddDate(0, 0, 8)}
+			eighth_day := CalDay{Date: addDays(day.Date, 8)}
 
 			// determine the phase of the half moon
 			var phase string
diff --git a/calendar_event.go b/calendar_event.go
index a8494e2..b2a1c96 100644
--- a/calendar_event.go
+++ b/calendar_event.go
@@ -19,7 +19,7 @@ func icalEvent(d CalendarEvent) ical.VEvent {
 		UID:     uuid.NewV4().String(),
 		DTSTAMP: time.Now(),
 		DTSTART: d.GetDate(),
-		DTEND:   d.GetDate().AddDate(0, 0, 1),
+		DTEND:   addDays(d.GetDate(), 1),
 		SUMMARY: d.String(),
 		AllDay:  true,
 		TZID:    d.GetDate().Location().String(), // TODO: is the timezone going to mess up the dates?
diff --git a/helpers.go b/helpers.go
index 740e71a..0c8831c 100644
--- a/helpers.go
+++ b/helpers.go
@@ -33,6 +33,19 @@ func RalToDegree(x, y, z int) float64 {
 	return math.Floor(float64(30*x+y)*10000+float64(z*10000)/60) / 10000
 }
 
+// The same time of day n days later. Where daylight saving starts at midnight
+// that time may not exist, and AddDate can give a time on the day before.
+func addDays(t time.Time, n int) time.Time {
+	year, month, day := t.Date()
+	noon := time.Date(year, month, day+n, 12, 0, 0, 0, t.Location())
+
+	date := t.AddDate(0, 0, n)
+	if date.Day() != noon.Day() {
+		date = date.Add(time.Hour)
+	}
+	return date
+}
+
 // Keep it within 360 deg
 func NormalizeDegree(deg float64) float64 {
 	if deg <= 360 {
diff --git a/uposatha_moon.go b/uposatha_moon.go
index e102edf..d4a22ed 100644
--- a/uposatha_moon.go
+++ b/uposatha_moon.go
@@ -157,7 +157,7 @@ func (last_uposatha UposathaMoon) NextUposatha() UposathaMoon {
 		}
 	}
 
-	nu.Date = lu.Date.AddDate(0, 0, nu.U_Days)
+	nu.Date = addDays(lu.Date, nu.U_Days)
 
 	return nu
 }
-- 
2.43.0


From 7537eb1b19371e7a27afbe5873e504118642c622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:47 +0000
Subject: [PATCH 19/22] fix: Magha Puja was a month early in adhikamasa years
 where its new moon is in December

---
 uposatha_moon.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/uposatha_moon.go b/uposatha_moon.go
index d4a22ed..b555a89 100644
--- a/uposatha_moon.go
+++ b/uposatha_moon.go
@@ -30,8 +30,11 @@ func (last_uposatha UposathaMoon) NextUposatha() UposathaMoon {
 	lu := last_uposatha
 	var nu UposathaMoon // next uposatha
 
+	// Before 1290 the new moon of the 3rd month can be in December. The year of
+	// the month is the year of its full moon, 15 days later.
+
 	var su_year SuriyaYear
-	su_year.Init(lu.Date.Year())
+	su_year.Init(addDays(lu.Date, 15).Year())
 
 	is_adhikamasa_year := su_year.Is_Adhikamasa()
 	is_adhikavara_year := su_year.Is_Adhikavara()
-- 
2.43.0


From 2d50b0f81c014bd72a4598ccdc0bdce2e2ecadad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:40 +0000
Subject: [PATCH 20/22] fix: GenerateSolarYear lost the half moon after Kattika
 in 88 years from 3572 on

---
 cal_day.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cal_day.go b/cal_day.go
index 940db58..4aaaa7d 100644
--- a/cal_day.go
+++ b/cal_day.go
@@ -188,6 +188,14 @@ func GenerateSolarYear(solar_year int) []CalendarEvent {
 		LunarYear:   date.Year() + BEdiff,
 	}
 
+	// From 3572 on Kattika can be in the last days of December, and its half
+	// moon in the solar year.
+
+	kattika_half := HalfMoon{Date: date.AddDate(0, 0, 8), Phase: "waning"}
+	if kattika_half.GetDate().Year() == solar_year {
+		events = append(events, kattika_half)
+	}
+
 	for last_uposatha.Date.Year() <= solar_year {
 		var uposatha UposathaMoon
 		uposatha = last_uposatha.NextUposatha()
-- 
2.43.0


From 7b1d1c71c629e2888f2eff9cdb2a05338d3ed190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:34 +0000
Subject: [PATCH 21/22] fix: AddHalfMoonDays overwrote the days after a part of
 a list it was given

---
 cal_day.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cal_day.go b/cal_day.go
index 4aaaa7d..03ddb43 100644
--- a/cal_day.go
+++ b/cal_day.go
@@ -127,8 +127,9 @@ func AddHalfMoonDays(cal_days []CalDay) []CalDay {
 		}
 	}
 
-	// add half-moons to the calendar days
-	cal_days = append(cal_days, half_moon_days...)
+	// add half-moons to the calendar days, in a new slice: the room after the
+	// last one can hold other days of the caller
+	cal_days = append(cal_days[:len(cal_days):len(cal_days)], half_moon_days...)
 
 	return cal_days
 }
-- 
2.43.0


From a883897dadcde4b22a1fd1b04a23a43868a6075c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:49 +0000
Subject: [PATCH 22/22] fix: a cut-off data file of one year made GetAstroMoons
 panic for the whole range

---
 astro_moon.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/astro_moon.go b/astro_moon.go
index e97ba6f..2b78380 100644
--- a/astro_moon.go
+++ b/astro_moon.go
@@ -64,8 +64,10 @@ func GetAstroMoons(fromDate time.Time, toDate time.Time) (moons []AstroMoon) {
 
 		var resp AerisResp
 		if err := json.Unmarshal(data, &resp); err != nil {
-			panic(err)
-			return moons
+			if verbose {
+				log.Printf("%v, %s\n", err, filepath)
+			}
+			continue
 		}
 
 		if resp.Success != true {
-- 
2.43.0

