package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// The repository's data directory, read once from the real disk: the content
// the embedded store has to reproduce.

type dataFile struct {
	Name string // "astro-1999.json"
	Key  string // "/data/astro/astro-1999.json"
	Data []byte
	Year int
}

type astro struct {
	At    time.Time
	Phase string
}

var (
	dataFiles []*dataFile
	dataByKey = map[string]*dataFile{}
	astroOf   = map[int][]astro{} // usable years
)

func loadData(repo string) {
	dir := filepath.Join(repo, "data", "astro")
	ents, err := os.ReadDir(dir)
	if err != nil {
		fatal(err)
	}
	for _, e := range ents {
		if !strings.HasSuffix(e.Name(), ".json") {
			continue
		}
		b, err := os.ReadFile(filepath.Join(dir, e.Name()))
		if err != nil {
			fatal(err)
		}
		f := &dataFile{Name: e.Name(), Key: "/data/astro/" + e.Name(), Data: b}
		fmt.Sscanf(e.Name(), "astro-%d.json", &f.Year)
		dataFiles = append(dataFiles, f)
		dataByKey[f.Key] = f
		var doc struct {
			Success  bool
			Error    struct{ Code string }
			Response []struct {
				DateTimeISO string
				Code        int
			}
		}
		var probe struct {
			Success bool
			Error   *struct{ Code string }
		}
		if json.Unmarshal(b, &probe) != nil || !probe.Success || probe.Error != nil && probe.Error.Code != "" {
			continue
		}
		if err := json.Unmarshal(b, &doc); err != nil {
			continue
		}
		var as []astro
		for _, r := range doc.Response {
			t, err := time.Parse(time.RFC3339, r.DateTimeISO)
			if err != nil {
				continue
			}
			as = append(as, astro{t.UTC(), []string{"new", "waxing", "full", "waning"}[r.Code]})
		}
		astroOf[f.Year] = as
	}
	sort.Slice(dataFiles, func(i, j int) bool { return dataFiles[i].Name < dataFiles[j].Name })
	if len(dataFiles) == 0 {
		fatal(fmt.Errorf("no data files in %s", dir))
	}
}
