// Package moreland stands in for gonum.org/v1/plot/palette/moreland.
package moreland

import "github.com/davidkleiven/gopf/zverif/palette"

func Kindlmann() palette.ColorMap         { return &palette.Map{} }
func ExtendedKindlmann() palette.ColorMap { return &palette.Map{} }
func BlackBody() palette.ColorMap         { return &palette.Map{} }
func ExtendedBlackBody() palette.ColorMap { return &palette.Map{} }
func SmoothBlueRed() palette.ColorMap     { return &palette.Map{} }
func SmoothGreenRed() palette.ColorMap    { return &palette.Map{} }
