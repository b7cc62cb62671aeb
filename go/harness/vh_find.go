package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"

	findNodes "transform-osm/db-utils/find-nodes"
	osmUtils "transform-osm/osm-utils"

	"github.com/pkg/errors"
)

// A line: nodes one after another, cut into ways, some of them stored the
// other way around, some nodes with a further way attached.
type vhLine struct {
	osm    osmUtils.Osm
	nodes  []*osmUtils.Node
	pos    []float64 // distance along the line
	border []bool    // the node ends a way of the line
	side   []int     // further ways at the node
	fits   []bool    // a way ends here and another one begins here
}

func vhMakeLine(c *vhCtx, n int, firstID int, messy, sides int) *vhLine {
	l := &vhLine{}
	lat, lon := 48+4*c.r.real(), 8+4*c.r.real()
	dlat, dlon := (c.r.real()-0.5)*0.01, (c.r.real()-0.5)*0.01
	for i := 0; i < n; i++ {
		s := 0.2 + c.r.real()
		if c.r.chance(10) {
			s = 0.01 + 0.1*c.r.real()
		}
		if i > 0 {
			lat += dlat * s
			lon += dlon * s
		}
		nd := &osmUtils.Node{Id: strconv.Itoa(firstID + i), Lat: strconv.FormatFloat(lat, 'f', 7, 64), Lon: strconv.FormatFloat(lon, 'f', 7, 64)}
		l.nodes = append(l.nodes, nd)
		p := 0.0
		if i > 0 {
			p = l.pos[i-1] + vhNodeDistance(l.nodes[i-1], nd)
		}
		l.pos = append(l.pos, p)
	}
	l.osm.Node = append(l.osm.Node, l.nodes...)
	l.border, l.side, l.fits = make([]bool, n), make([]int, n), make([]bool, n)
	way := 9000 + firstID*10

	var prevRev bool
	for a := 0; a < n-1; {
		b := a + c.r.in(1, 9)
		if b > n-1 {
			b = n - 1
		}
		w := &osmUtils.Way{Id: strconv.Itoa(way)}
		way++
		rev := c.r.chance(messy)
		for i := a; i <= b; i++ {
			k := i
			if rev {
				k = b + a - i
			}
			w.Nd = append(w.Nd, &osmUtils.Nd{Ref: l.nodes[k].Id})
		}
		l.osm.Way = append(l.osm.Way, w)
		l.border[a], l.border[b] = true, true
		l.fits[a] = a > 0 && rev == prevRev
		prevRev = rev
		a = b
	}
	if c.r.chance(30) {
		c.r.shuffle(len(l.osm.Way), func(i, j int) { l.osm.Way[i], l.osm.Way[j] = l.osm.Way[j], l.osm.Way[i] })
	}
	for k := c.r.below(sides + 1); k > 0; k-- {
		at := c.r.in(1, n-2)
		off := &osmUtils.Node{Id: strconv.Itoa(firstID + 5000 + k), Lat: "10", Lon: "10"}
		l.osm.Node = append(l.osm.Node, off)
		w := &osmUtils.Way{Id: strconv.Itoa(way), Nd: []*osmUtils.Nd{{Ref: l.nodes[at].Id}, {Ref: off.Id}}}
		way++
		l.osm.Way = append(l.osm.Way, w)
		l.side[at]++
	}
	return l
}

func vhNodeDistance(a, b *osmUtils.Node) float64 {
	f := func(s string) float64 { v, _ := strconv.ParseFloat(s, 64); return v }
	return vhDistance(f(a.Lat), f(b.Lat), f(a.Lon), f(b.Lon))
}

// Whether nodes can be sought from node i.
func (l *vhLine) good(i int) bool {
	if l.side[i] > 0 {
		return false // not an end of a track and not one passed through
	}
	return !l.border[i] || i == 0 || i == len(l.nodes)-1 || l.fits[i]
}

// Node at which a walk of the given length from i ends, and whether it was cut short.
func (l *vhLine) walk(i, step int, dist float64) (int, bool) {
	for j := i; ; j += step {
		if math.Abs(l.pos[j]-l.pos[i]) >= dist {
			return j, false
		}
		if j+step < 0 || j+step >= len(l.nodes) {
			return j, true
		}
		// the walk changes from one way to the next where one way ends
		if l.border[j] && j != i && l.side[j] > 0 {
			return j, true
		}
	}
}

func vhG02(c *vhCtx) {
	messy := []int{0, 0, 30, 50, 100}[c.r.below(5)]
	sides := []int{0, 0, 0, 2, 5}[c.r.below(5)]
	l := vhMakeLine(c, c.r.in(3, 60), 100, messy, sides)
	n := len(l.nodes)
	index := map[string]int{}
	for i, x := range l.nodes {
		index[x.Id] = i
	}
	offset := float64(c.r.in(0, 300)) // kilometrage of the line's first node
	if c.r.chance(10) {
		offset = -offset
	}
	rising := 1.0
	if c.r.chance(30) {
		rising = -1 // the kilometrage decreases along the line
	}
	km := func(p float64) float64 { return offset + rising*p }
	anchors := map[float64][]*osmUtils.Node{}
	at := map[float64]int{}
	for k := c.r.in(2, 6); k > 0 || len(anchors) < 2; k-- {
		i := c.r.below(n)
		anchors[km(l.pos[i])] = []*osmUtils.Node{l.nodes[i]}
		at[km(l.pos[i])] = i
	}
	for q := 0; q < 8; q++ {
		target := l.pos[n-1] * c.r.real()
		switch c.r.below(12) {
		case 0:
			target = l.pos[n-1] + c.r.real() // past the end
		case 1:
			target = -c.r.real()
		case 2: // at an anchor
			for k := range at {
				target = l.pos[at[k]]
				break
			}
		case 3: // almost at a node
			target = l.pos[c.r.below(n)] + (c.r.real()-0.5)*1e-4
		}
		want := km(target)
		keys := []float64{}
		for k := range anchors {
			keys = append(keys, k)
		}
		sort.Slice(keys, func(i, j int) bool { return math.Abs(keys[i]-want) < math.Abs(keys[j]-want) })
		tie := false
		for i := 1; i < len(keys); i++ {
			tie = tie || math.Abs(math.Abs(keys[i]-want)-math.Abs(keys[i-1]-want)) < 1e-9
		}
		if tie {
			continue
		}
		got, err := findNodes.FindBestOSMNode(&l.osm, anchors, want)
		c.stat("sought", 1)
		// the pair of anchors that is used in the end
		a, b, next := 0, 1, 2
		exact := math.Abs(keys[0]-want) == 0
		usable := exact
		for !usable {
			if !l.good(at[keys[a]]) {
				if next == len(keys) {
					break
				}
				a = next
				next++
			} else if !l.good(at[keys[b]]) {
				if next == len(keys) {
					break
				}
				b = next
				next++
			} else {
				usable = true
			}
		}
		if !usable {
			c.check(err != nil && errors.Cause(err) == findNodes.ErrNoSuitableAnchors, "no-anchors", "km ", want, " among ", keys, " gave ", err)
			c.stat("no_anchors", 1)
			continue
		}
		if !c.check(err == nil && got != nil, "not-found", "km ", want, " among ", keys, " gave ", err) {
			continue
		}
		g, known := index[got.Id]
		if !c.check(known, "off-the-line", "km ", want, " gave node ", got.Id) {
			continue
		}
		if exact {
			c.eq(g, at[keys[0]], "at-anchor", "km ", want)
			c.stat("exact", 1)
			continue
		}
		i1, i2 := at[keys[a]], at[keys[b]]
		d1, d2 := math.Abs(keys[a]-want), math.Abs(keys[b]-want)
		dir := func(i int) int {
			if target > l.pos[i] {
				return 1
			}
			return -1
		}
		r1, cut1 := l.walk(i1, dir(i1), d1)
		r2, cut2 := l.walk(i2, dir(i2), d2)
		w1, _ := l.walk(i1, -dir(i1), d1)
		w2, _ := l.walk(i2, -dir(i2), d2)
		onLine := target > 0 && target < l.pos[n-1]
		near := false
		for j := range l.pos {
			near = near || math.Abs(l.pos[j]-target) < 1e-7
		}
		if near || (onLine && (cut1 || cut2)) {
			c.stat("blocked", 1)
			continue // the track cannot be followed to the place
		}
		c.nontriv = true
		if r1 == r2 {
			if w1 == r2 || w2 == r1 {
				continue
			}
			// both anchors lead to the same node
			c.eq(g, r1, "same-node", "km ", want, " from ", keys[a], " and ", keys[b], " wrong way ", w1, " ", w2, " of ", n)
			c.stat("same_node", 1)
			if w1 == w2 {
				c.stat("both_ends", 1)
			}
			continue
		}
		gap := vhNodeDistance(l.nodes[r1], l.nodes[r2])
		clear := true
		for _, p := range [][2]int{{w1, r2}, {r1, w2}, {w1, w2}} {
			if p[0] == p[1] || vhNodeDistance(l.nodes[p[0]], l.nodes[p[1]]) < gap+1e-6 {
				clear = false
			}
		}
		if !clear {
			c.stat("unclear", 1)
			continue
		}
		// of the two nodes around the place the one closer to it
		e1, e2 := math.Abs(l.pos[r1]-target), math.Abs(l.pos[r2]-target)
		best := r1
		if e2 < e1 {
			best = r2
		}
		if math.Abs(e1-e2) > 1e-7 {
			c.eq(g, best, "closer-node", "km ", want, " from ", keys[a], " and ", keys[b], " between ", r1, " and ", r2)
			c.stat("between", 1)
		}
	}
	// stepping through ways
	for _, w := range l.osm.Way {
		k := c.r.below(len(w.Nd))
		if k+1 < len(w.Nd) {
			x, err := findNodes.FindNextRunningNode(&l.osm, false, k, *w)
			c.check(err == nil && x.Id == w.Nd[k+1].Ref, "step-down", w.Id)
		}
		if k > 0 {
			x, err := findNodes.FindNextRunningNode(&l.osm, true, k, *w)
			c.check(err == nil && x.Id == w.Nd[k-1].Ref, "step-up", w.Id)
		}
		c.eq([]string{findNodes.GetWayNdRef(*w, findNodes.FirstNdRef), findNodes.GetWayNdRef(*w, findNodes.SecondNdRef),
			findNodes.GetWayNdRef(*w, findNodes.SecondLastNdRef), findNodes.GetWayNdRef(*w, findNodes.LastNdRef)},
			[]string{w.Nd[0].Ref, w.Nd[1].Ref, w.Nd[len(w.Nd)-2].Ref, w.Nd[len(w.Nd)-1].Ref}, "way-ends", w.Id)
	}
	c.sig(fmt.Sprint(n, len(l.osm.Way), at))
	c.note(n, " nodes, ", len(l.osm.Way), " ways, ", len(anchors), " anchors")
}
