prop, pkg = "C15", "slicers"
needs = "layers whose order numbers differ from their place in the list, as after slicing one part of several"
breaks = "the bottom layers are taken by order number instead of by place, so layers at the bottom get sparse fill"
edits = [("slicers/fill_layer.go", '''		if (i < settings.BottomLayers) || (i >= (no_of_layers - settings.TopLayers)) {
''', '''		if (layer.Order < settings.BottomLayers) || (i >= (no_of_layers - settings.TopLayers)) {
''')]
demo = '''
package slicers

import (
	"testing"

	. "github.com/l1va/goosli/primitives"
)

func TestSeedDemo(t *testing.T) {
	ring := func() []Path {
		return []Path{{Points: []Point{{0, 0, 0}, {10, 0, 0}, {10, 10, 0}, {0, 10, 0}, {0, 0, 0}}}}
	}
	layers := []Layer{{Order: 7, Norm: AxisZ, Paths: ring()}, {Order: 8, Norm: AxisZ, Paths: ring()}, {Order: 9, Norm: AxisZ, Paths: ring()}}
	solid := []Plane{{Point{2, 0, 0}, AxisX}, {Point{4, 0, 0}, AxisX}, {Point{6, 0, 0}, AxisX}}
	sparse := []Plane{{Point{5, 0, 0}, AxisX}}
	r := FillLayers(layers, sparse, solid, Settings{BottomLayers: 1, TopLayers: 1})
	for i, n := range []int{3, 1, 3} {
		if len(r[i].Fill) != n {
			t.Fatal(i, r[i].Fill)
		}
	}
}
'''
