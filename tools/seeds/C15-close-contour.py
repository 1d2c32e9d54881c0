prop, pkg = "C15", "slicers"
needs = "an innermost contour that is not closed, which a fill plane crosses between its last and first point"
breaks = "fill lines end where there is no contour"
edits = [("slicers/fill_layer.go", '''	pts := []Point{}
	for _, pth := range pathes {
		for i := 1; i < len(pth.Points); i++ {

			p := plane''', '''	pts := []Point{}
	for _, pth := range pathes {
		if !pth.IsClosed() {
			pth.Points = append(pth.Points[:len(pth.Points):len(pth.Points)], pth.Points[0])
		}
		for i := 1; i < len(pth.Points); i++ {

			p := plane''')]
demo = '''
package slicers

import (
	"testing"

	. "github.com/l1va/goosli/primitives"
)

func TestSeedDemo(t *testing.T) {
	open := []Path{{Points: []Point{{0, 0, 0}, {10, 0, 0}, {10, 10, 0}, {0, 10, 0}}}}
	layers := []Layer{{Norm: AxisZ, Paths: open}}
	rows := []Plane{{Point{0, 5, 0}, AxisY}}
	r := FillLayers(layers, rows, rows, Settings{})
	for _, l := range r[0].Fill {
		for _, p := range l.Points {
			if p.X < 9 {
				t.Fatal("line ends off the contour", l)
			}
		}
	}
}
'''
