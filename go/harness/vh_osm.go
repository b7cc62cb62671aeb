package main

import (
	"encoding/xml"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	combineLines "transform-osm/combine-lines"
	findNodes "transform-osm/db-utils/find-nodes"
	osmUtils "transform-osm/osm-utils"
)

func vhRegister() {
	vhProps["G01"] = vhG01
	vhProps["G02"] = vhG02
	vhProps["G03"] = vhG03
	vhProps["G04"] = vhG04
}

func vhTag(k, v string) *osmUtils.Tag { return &osmUtils.Tag{K: k, V: v} }

func vhRefs(w *osmUtils.Way) []string {
	out := []string{}
	for _, nd := range w.Nd {
		out = append(out, nd.Ref)
	}
	return out
}

func vhTags(ts []*osmUtils.Tag) []string {
	out := []string{}
	for _, t := range ts {
		out = append(out, t.K+"="+t.V)
	}
	return out
}

// The first of each number, by increasing number, as the documentation says.
func vhSortedFirst(ids []string) []int {

	first := map[int]int{}
	nums := []int{}
	for i, s := range ids {
		n, _ := strconv.Atoi(s)
		if _, ok := first[n]; !ok {
			first[n] = i
			nums = append(nums, n)
		}
	}
	sort.Ints(nums)
	out := []int{}
	for _, n := range nums {
		out = append(out, first[n])
	}
	return out
}

func vhSort(c *vhCtx) {
	span := []int{3, 20, 1000, 1 << 40}[c.r.below(4)]
	id := func() string {
		n := c.r.in(-span/4, span)
		if c.r.chance(3) && n >= 0 {
			return "00" + strconv.Itoa(n)
		}
		return strconv.Itoa(n)
	}
	var osm osmUtils.Osm
	size := func() int { return c.r.below([]int{1, 4, 40, 150}[c.r.below(4)]) }
	nN, nW, nR := size(), size(), size()
	for i := 0; i < nN; i++ {
		osm.Node = append(osm.Node, &osmUtils.Node{Id: id(), Lat: strconv.Itoa(i)})
	}
	for i := 0; i < nW; i++ {
		osm.Way = append(osm.Way, &osmUtils.Way{Id: id(), Tag: []*osmUtils.Tag{vhTag("at", strconv.Itoa(i))}})
	}
	for i := 0; i < nR; i++ {
		osm.Relation = append(osm.Relation, &osmUtils.Relation{Id: id(), Tag: []*osmUtils.Tag{vhTag("at", strconv.Itoa(i))}})
	}
	on, ow, or := append([]*osmUtils.Node{}, osm.Node...), append([]*osmUtils.Way{}, osm.Way...), append([]*osmUtils.Relation{}, osm.Relation...)
	osmUtils.SortAndRemoveDuplicatesOsm(&osm)
	ids := []string{}
	for _, x := range on {
		ids = append(ids, x.Id)
	}
	want := vhSortedFirst(ids)
	if c.eq(len(osm.Node), len(want), "dedupe-nodes", ids) {
		for i, k := range want {
			c.check(osm.Node[i] == on[k], "dedupe-node", "place ", i, " of ", ids)
		}
	}
	ids = nil
	for _, x := range ow {
		ids = append(ids, x.Id)
	}
	want = vhSortedFirst(ids)
	if c.eq(len(osm.Way), len(want), "dedupe-ways", ids) {
		for i, k := range want {
			c.check(osm.Way[i] == ow[k], "dedupe-way", "place ", i, " of ", ids)
		}
	}
	ids = nil
	for _, x := range or {
		ids = append(ids, x.Id)
	}
	want = vhSortedFirst(ids)
	if c.eq(len(osm.Relation), len(want), "dedupe-relations", ids) {
		for i, k := range want {
			c.check(osm.Relation[i] == or[k], "dedupe-relation", "place ", i, " of ", ids)
		}
	}
	c.stat("duplicates", nN-len(osm.Node)+nW-len(osm.Way)+nR-len(osm.Relation))
	c.sig(fmt.Sprint(nN, nW, nR, span))
	if nN-len(osm.Node) > 0 {
		c.nontriv = true
	}
}

func vhRandomOsm(c *vhCtx, nodes, ways int) *osmUtils.Osm {
	osm := &osmUtils.Osm{}
	for i := 0; i < nodes; i++ {
		n := &osmUtils.Node{Id: strconv.Itoa(100 + i), Lat: fmt.Sprint(50 + c.r.real()), Lon: fmt.Sprint(8 + c.r.real())}
		for k := c.r.below(4); k > 0; k-- {
			n.Tag = append(n.Tag, vhTag([]string{"railway", "ref", "name", "x"}[c.r.below(4)], strconv.Itoa(c.r.below(5))))
		}
		osm.Node = append(osm.Node, n)
	}
	for i := 0; i < ways; i++ {
		w := &osmUtils.Way{Id: strconv.Itoa(9000 + i)}
		for k := c.r.in(1, 8); k > 0; k-- {
			w.Nd = append(w.Nd, &osmUtils.Nd{Ref: strconv.Itoa(100 + c.r.below(nodes+1))})
		}
		if c.r.chance(20) {
			w.Nd = append(w.Nd, &osmUtils.Nd{Ref: w.Nd[0].Ref})
		}
		osm.Way = append(osm.Way, w)
	}
	return osm
}

func vhLookup(c *vhCtx) {
	osm := vhRandomOsm(c, c.r.in(1, 30), c.r.below(15))
	ways := [][]string{}
	for _, w := range osm.Way {
		ways = append(ways, vhRefs(w))
	}
	lookups := func() {
		for k := 0; k < 6; k++ {
			id := strconv.Itoa(99 + c.r.below(len(osm.Node)+3))
			var want *osmUtils.Node
			for i := len(osm.Node) - 1; i >= 0; i-- {
				if osm.Node[i].Id == id {
					want = osm.Node[i]
				}
			}
			got, err := osmUtils.GetNodeById(osm, id)
			c.check((err == nil) == (want != nil), "node-by-id-found", id)
			if err == nil {
				c.check(got == want, "node-by-id", id)
			}
			hits := []string{}
			for i, refs := range ways {
				at := -1
				for j, r := range refs {
					if r == id && at < 0 {
						at = j
					}
				}
				g, err := osmUtils.GetNodeIndexInWay(osm.Way[i], id)
				c.check((err == nil) == (at >= 0), "index-found", id, " in ", refs)
				if err == nil {
					c.eq(g, at, "index", id, " in ", refs)
				}
				if at >= 0 {
					hits = append(hits, osm.Way[i].Id)
				}
			}
			found, err := osmUtils.FindWaysByNodeId(osm, id)
			c.check((err == nil) == (len(hits) > 0), "ways-found", id)
			ids := []string{}
			for i := range found {
				ids = append(ids, found[i].Id)
			}
			c.eq(ids, hits, "ways-by-node", id)
			if want != nil {
				key := []string{"railway", "ref", "name", "x", "y"}[c.r.below(5)]
				v, has := "", false
				for _, t := range want.Tag {
					if t.K == key && !has {
						v, has = t.V, true
					}
				}
				gv, err := osmUtils.FindTagOnNode(want, key)
				c.check((err == nil) == has, "tag-found", key)
				c.eq(gv, v, "tag", key, " of ", vhTags(want.Tag))
			}
		}
	}
	lookups()
	// insertions next to a node, checked against lists
	for step := c.r.below(12); step > 0; step-- {
		ref := osm.Node[c.r.below(len(osm.Node))]
		nn := &osmUtils.Node{Id: strconv.Itoa(100000 + step), Lat: ref.Lat, Lon: ref.Lon}
		before := len(osm.Node)
		osmUtils.InsertNewNodeWithReferenceNode(osm, nn, ref)
		c.check(len(osm.Node) == before+1 && osm.Node[before] == nn, "insert-node", "number of nodes ", len(osm.Node))
		for i, refs := range ways {
			at := -1
			for j, r := range refs {
				if r == ref.Id && at < 0 {
					at = j
				}
			}
			if at >= 0 {
				if at != len(refs)-1 {
					at++
				}
				refs = append(append(append([]string{}, refs[:at]...), nn.Id), refs[at:]...)
				ways[i] = refs
			}
			c.eq(vhRefs(osm.Way[i]), refs, "insert", "way ", i, " after ", nn.Id, " next to ", ref.Id)
		}
		c.stat("insertions", 1)
		c.nontriv = true
	}
	lookups()
	c.sig(fmt.Sprint(ways))
	c.note("ways ", ways)
}

// The angle between two points as vectors.
func vhDistance(lat1, lat2, lon1, lon2 float64) float64 {
	rad := math.Pi / 180
	v := func(lat, lon float64) [3]float64 {
		return [3]float64{math.Cos(lat*rad) * math.Cos(lon*rad), math.Cos(lat*rad) * math.Sin(lon*rad), math.Sin(lat * rad)}
	}
	a, b := v(lat1, lon1), v(lat2, lon2)
	x := [3]float64{a[1]*b[2] - a[2]*b[1], a[2]*b[0] - a[0]*b[2], a[0]*b[1] - a[1]*b[0]}
	return 6371.0 * math.Atan2(math.Sqrt(x[0]*x[0]+x[1]*x[1]+x[2]*x[2]), a[0]*b[0]+a[1]*b[1]+a[2]*b[2])
}

func vhNumbers(c *vhCtx) {
	for k := 0; k < 20; k++ {
		span := []float64{1e-6, 1e-3, 1, 60}[c.r.below(4)]
		la, lo := -60+120*c.r.real(), -170+340*c.r.real()
		lb, lp := la+span*(c.r.real()-0.5), lo+span*(c.r.real()-0.5)
		d := findNodes.ComputeHaversineDistance(la, lb, lo, lp)
		w := vhDistance(la, lb, lo, lp)
		c.check(math.Abs(d-w) <= 1e-9+1e-7*w, "distance", la, " ", lo, " to ", lb, " ", lp, " is ", d, " not ", w)
		c.eq(findNodes.ComputeHaversineDistance(lb, la, lp, lo), d, "distance-symmetric", la, " ", lb)
		c.check(findNodes.ComputeHaversineDistance(la, la, lo, lo) == 0, "distance-self", la)
	}
	for k := 0; k < 20; k++ {
		parts := []string{}
		sum := 0.0
		for p := c.r.in(1, 3); p > 0; p-- {
			whole, dec := c.r.in(0, 400), c.r.in(0, 999)
			s := fmt.Sprintf("%d,%03d", whole, dec)
			v := float64(whole) + float64(dec)/1000
			if c.r.chance(10) {
				s, v = strconv.Itoa(whole), float64(whole)
			} else if c.r.chance(10) && len(parts) == 0 {
				s, v = "-"+s, -v
			}
			parts = append(parts, s)
			sum += v
		}
		s := strings.Join(parts, "+")
		got, err := findNodes.FormatKilometrageStringInFloat(s)
		c.check(err == nil, "kilometrage-refused", s)
		c.check(math.Abs(got-sum) < 1e-9, "kilometrage", s, " is ", got, " not ", sum)
		bad := []string{"", "a", "1,2,3", "1.5x", "1,0+", "+", "1,0+b", "--1"}[c.r.below(8)]
		_, err = findNodes.FormatKilometrageStringInFloat(bad)
		c.check(err != nil, "kilometrage-accepted", bad)
	}
	anchors := map[float64][]*osmUtils.Node{}
	for k := c.r.below(20); k > 0; k-- {
		anchors[float64(c.r.in(0, 4000))/16] = nil
	}
	at := float64(c.r.in(0, 4000)) / 16
	keys := findNodes.SortAnchors(anchors, at)
	seen := map[float64]bool{}
	for i, k := range keys {
		_, ok := anchors[k]
		c.check(ok && !seen[k], "anchors-set", k)
		seen[k] = true
		c.check(i == 0 || math.Abs(keys[i-1]-at) <= math.Abs(k-at), "anchors-order", keys, " around ", at)
	}
	c.eq(len(keys), len(anchors), "anchors-number")
	c.sig(fmt.Sprint(keys))
	c.nontriv = true
}

var vhColor = regexp.MustCompile(`^#([0-9a-f]{2})([0-9a-f]{2})([0-9a-f]{2})$`)

func vhSaturated(s string) bool {
	m := vhColor.FindStringSubmatch(s)
	if m == nil {
		return false
	}
	v := []int64{}
	for _, h := range m[1:] {
		n, _ := strconv.ParseInt(h, 16, 32)
		v = append(v, n)
	}
	sort.Slice(v, func(i, j int) bool { return v[i] < v[j] })
	return v[0] == 0 && v[2] == 255
}

func vhWriteOsm(path string, osm *osmUtils.Osm) {
	b, err := xml.MarshalIndent(osm, "", " ")
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(path, append([]byte(xml.Header), b...), 0644); err != nil {
		panic(err)
	}
}

func vhCombine(c *vhCtx) {
	dir := filepath.Join(c.scratch, fmt.Sprint("lines", c.idx))
	os.RemoveAll(dir)
	_, err := combineLines.CombineAllLines(dir)
	c.check(err != nil && strings.HasPrefix(err.Error(), combineLines.ErrLinesDirNotFound.Error()+":"), "combine-no-directory", err)
	os.Mkdir(dir, 0755)
	defer os.RemoveAll(dir)
	n := c.r.below(6)
	names := []string{}
	files := map[string]*osmUtils.Osm{}
	for len(names) < n {
		name := fmt.Sprintf("%04d.xml", c.r.below(10000))
		if files[name] != nil {
			continue
		}
		osm := vhRandomOsm(c, c.r.in(1, 8), c.r.below(5))
		for i := c.r.below(3); i > 0; i-- {
			osm.Relation = append(osm.Relation, &osmUtils.Relation{Id: strconv.Itoa(c.r.below(99)),
				Tag:    []*osmUtils.Tag{vhTag("ref", name[:4])},
				Member: []*osmUtils.Member{{Type: "way", Ref: strconv.Itoa(9000 + c.r.below(4)), Role: "r"}}})
		}
		files[name] = osm
		names = append(names, name)
		vhWriteOsm(filepath.Join(dir, name), osm)
	}
	sort.Strings(names)
	var got osmUtils.Osm
	vhQuiet(func() { got, err = combineLines.CombineAllLines(dir) })
	if !c.check(err == nil, "combine-failed", err) {
		return
	}
	var nodes, ways, rels, wn, ww, wr []string
	for _, x := range got.Node {
		nodes = append(nodes, fmt.Sprint(x.Id, x.Lat, x.Lon, vhTags(x.Tag)))
	}
	for _, x := range got.Way {
		t := vhTags(x.Tag)
		if c.check(len(t) > 0 && strings.HasPrefix(t[len(t)-1], "color="), "combine-no-color", x.Id) {
			c.check(vhSaturated(t[len(t)-1][6:]), "combine-color", t[len(t)-1])
			t = t[:len(t)-1]
		}
		ways = append(ways, fmt.Sprint(x.Id, vhRefs(x), t))
	}
	for _, x := range got.Relation {
		rels = append(rels, fmt.Sprint(x.Id, vhTags(x.Tag), len(x.Member), x.Member[0].Type, x.Member[0].Ref, x.Member[0].Role))
	}
	at := 0
	for _, name := range names {
		f := files[name]
		for _, x := range f.Node {
			wn = append(wn, fmt.Sprint(x.Id, x.Lat, x.Lon, vhTags(x.Tag)))
		}
		for i, x := range f.Way {
			ww = append(ww, fmt.Sprint(x.Id, vhRefs(x), vhTags(x.Tag)))
			if at < len(got.Way) {
				tag := func(k int) string { return got.Way[k].Tag[len(got.Way[k].Tag)-1].V }
				c.check(i == 0 || tag(at) == tag(at-1), "combine-one-color", name)
			}
			at++
		}
		for _, x := range f.Relation {
			wr = append(wr, fmt.Sprint(x.Id, vhTags(x.Tag), len(x.Member), x.Member[0].Type, x.Member[0].Ref, x.Member[0].Role))
		}
	}
	c.eq(nodes, wn, "combine-nodes")
	c.eq(ways, ww, "combine-ways")
	c.eq(rels, wr, "combine-relations")
	c.stat("lines_combined", n)
	c.sig(fmt.Sprint(names))
	c.nontriv = n > 1
	if c.r.chance(20) && n > 0 {
		os.WriteFile(filepath.Join(dir, names[0]), []byte("<osm><node"), 0644)
		vhQuiet(func() { _, err = combineLines.CombineAllLines(dir) })
		c.check(err != nil, "combine-malformed")
	}
}

func vhG01(c *vhCtx) {
	switch c.r.below(5) {
	case 0, 1:
		vhSort(c)
	case 2, 3:
		vhLookup(c)
	default:
		if c.r.chance(50) {
			vhNumbers(c)
		} else {
			vhCombine(c)
		}
	}
}
