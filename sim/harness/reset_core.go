//go:build !full && !years

package main

import suriya "github.com/splendidmoons/suriya-go"

func resetPackages() { suriya.VerifReset() }
