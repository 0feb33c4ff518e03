//go:build verifinst

package checks

import (
	"github.com/arl/go-detour/detour"
	"github.com/arl/go-detour/recast"
	"github.com/arl/go-detour/sample"
	"github.com/arl/go-detour/sample/solomesh"
	"github.com/arl/go-detour/sample/tilemesh"
)

func init() {
	setPoint = func(f func(id int)) {
		detour.VerifPoint, recast.VerifPoint, sample.VerifPoint = f, f, f
		solomesh.VerifPoint, tilemesh.VerifPoint = f, f
	}
}
