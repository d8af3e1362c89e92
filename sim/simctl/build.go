package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

const pkgPath = "github.com/splendidmoons/suriya-go"

// files the repository's own build leaves out because a third-party package
// is missing here; the simulator's full build has them, with stubs.
var needThirdParty = []string{"astro_moon.go", "cal_day.go", "calendar_event.go", "event.go", "half_moon.go", "major_event.go", "uposatha_moon.go"}

type siteTable struct {
	Sites []string `json:"sites"`
}

func copyTree(src, dst string) error {
	return filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		to := filepath.Join(dst, rel)
		if fi.IsDir() {
			return os.MkdirAll(to, 0o755)
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(to, b, 0o644)
	})
}

// buildWorkspace instruments the repository into dir and compiles the harness.
// variant is "core" (the files the repository's own build compiles) or "full".
func buildWorkspace(repo, verif, dir, variant string, race bool) (string, error) {
	bin := filepath.Join(dir, "harness-"+variant)
	if race {
		bin += "-race"
	}
	gopath := filepath.Join(dir, "gopath-"+variant)
	src := filepath.Join(gopath, "src")
	if _, err := os.Stat(src); err != nil {
		for _, d := range []string{"simrt", "simsync", "simos", "simrand", "model", "harness"} {
			if err := copyTree(filepath.Join(verif, "sim", d), filepath.Join(src, "verifsim", d)); err != nil {
				return "", err
			}
		}
		if err := copyTree(filepath.Join(verif, "sim", "stubs"), src); err != nil {
			return "", err
		}
		exclude := map[string]bool{}
		if variant == "core" {
			for _, n := range needThirdParty {
				exclude[n] = true
			}
		}
		imp, fset := srcImporter(gopath)
		root := filepath.Join(src, pkgPath)
		var sites []string
		type unit struct{ sub, rename string }
		units := []unit{{"", ""}}
		if variant == "full" {
			units = append(units, unit{"suriya", "suriyacli"}, unit{"utils", "yearstool"})
		}
		for _, u := range units {
			sub, ren := u.sub, u.rename
			s, err := instrumentDir(instrOpts{srcDir: filepath.Join(repo, sub), dstDir: filepath.Join(root, sub),
				importPath: filepath.Join(pkgPath, sub), exclude: exclude, renameMain: ren, siteBase: len(sites) + 1, imp: imp, fset: fset})
			if err != nil {
				return "", err
			}
			sites = append(sites, s...)
		}
		b, _ := json.Marshal(siteTable{append([]string{"sync/io"}, sites...)})
		if err := os.WriteFile(filepath.Join(dir, "sites-"+variant+".json"), b, 0o644); err != nil {
			return "", err
		}
	}
	args := []string{"build", "-o", bin}
	if race {
		args = append(args, "-race")
	}
	if variant == "full" {
		args = append(args, "-tags", "full")
	}
	args = append(args, "verifsim/harness")
	cmd := exec.Command("go", args...)
	cgo := "0"
	if race {
		cgo = "1"
	}
	var env []string
	for _, e := range os.Environ() {
		k, _, _ := strings.Cut(e, "=")
		switch k {
		case "GO111MODULE", "GOPATH", "GOFLAGS", "CGO_ENABLED", "GOTOOLCHAIN", "GOPROXY", "GOENV", "GOOS", "GOARCH":
			continue
		}
		env = append(env, e)
	}
	cmd.Env = append(env, "GO111MODULE=off", "GOPATH="+gopath, "GOFLAGS=", "CGO_ENABLED="+cgo, "GOTOOLCHAIN=local", "GOPROXY=off", "GOENV=off")
	cmd.Dir = gopath
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("go build (%s, race=%v): %v\n%s", variant, race, err, out)
	}
	return bin, nil
}
