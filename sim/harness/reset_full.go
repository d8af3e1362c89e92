//go:build full

package main

import (
	suriya "github.com/splendidmoons/suriya-go"
	"github.com/splendidmoons/suriya-go/suriya"
	"github.com/splendidmoons/suriya-go/utils"
)

func resetPackages() {
	suriya.VerifReset()
	suriyacli.VerifReset()
	yearstool.VerifReset()
}
