package slicers

import (
	"math"
	"testing"
)

func TestVP_C03(t *testing.T) {
	v := newVP(t)
	for v.more() {
		m := vpSoup(v)
		z, s, r, ok := vpSlice(v, m)
		if !ok {
			continue
		}
		if len(m.Triangles) == 0 {
			if len(r) != 0 {
				v.fail("%d layers of an empty mesh", len(r))
			}
			continue
		}
		n := vpMul(1/vpLen(z), z)
		lo, hi := vpExtent(m.Triangles, n)
		q := (hi - lo) / s.LayerHeight
		if math.Abs(q-math.Round(q)) < 1e-6 && q > 1e-6 {
			continue // either count will do
		}
		cnt := int(math.Ceil(q - 1e-6))
		if len(r) > cnt || len(r) < cnt-2 {
			v.fail("%d layers for height %v / %v, direction %v, triangles %v", len(r), hi-lo, s.LayerHeight, z, m.Triangles)
			continue
		}
		for i, l := range r {
			if i == 0 && l.Order > 1 || i > 0 && l.Order != r[i-1].Order+1 || i == len(r)-1 && (l.Order < cnt-2 || l.Order > cnt-1) {
				v.fail("layer %d of %d (%d planes) has number %d", i, len(r), cnt, l.Order)
			}
			if !vpNearV(l.Norm, n, 1e-9) {
				v.fail("layer %d is cut across %v, not %v", i, l.Norm, n)
			}
			want := lo + (hi-lo)/float64(cnt)*(float64(l.Order)+0.5)
			for _, p := range l.Paths {
				for _, q := range p.Points {
					if h := vpDot(q.ToVector(), n); math.Abs(h-want) > 1e-6*(1+math.Abs(want)) {
						v.fail("layer %d of %d lies at height %v, not %v", l.Order, cnt, h, want)
					}
				}
			}
			if len(l.Paths) == 0 && i > 0 && i < len(r)-1 {
				continue
			}
		}
		if len(r) > 0 && len(r) < cnt {
			if r[0].Order == 1 && vpCrossed(m.Triangles, n, lo+(hi-lo)/float64(cnt)*0.5) {
				v.fail("the first layer of %d is missing", cnt)
			}
			if r[len(r)-1].Order == cnt-2 && vpCrossed(m.Triangles, n, lo+(hi-lo)/float64(cnt)*(float64(cnt)-0.5)) {
				v.fail("the last layer of %d is missing", cnt)
			}
		}
	}
}
