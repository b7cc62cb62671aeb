package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	osmUtils "transform-osm/osm-utils"
)

type vhStation struct {
	node   *osmUtils.Node
	listed bool // to be found in the search index
	keep   bool // to be found in the output
}

// Runs the tool itself in dir, with the stand-in for osmium.
func vhTool(c *vhCtx, dir string, args ...string) (int, string) {
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	bin := filepath.Join(dir, "bin")
	if os.Mkdir(bin, 0755) == nil {
		if err := os.Symlink(self, filepath.Join(bin, "osmium")); err != nil {
			panic(err)
		}
	}
	cmd := exec.Command(self, args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "PATH="+bin+":"+os.Getenv("PATH"))
	out, err := cmd.CombinedOutput()
	c.stat("tool_runs", 1)
	text := string(out)
	if len(text) > 600 {
		text = text[len(text)-600:]
	}
	if err != nil {
		if _, ok := err.(*exec.ExitError); !ok {
			panic(err)
		}
		return cmd.ProcessState.ExitCode(), text
	}
	return 0, text
}

func vhG04(c *vhCtx) {
	dir := filepath.Join(c.scratch, fmt.Sprint("tool", c.idx))
	os.RemoveAll(dir)
	defer os.RemoveAll(dir)
	os.MkdirAll(filepath.Join(dir, "temp", "DBResources"), 0755)
	points, names := c.r.in(1, 4), 0
	lines := []*vhDbLine{}
	base := osmUtils.Osm{Version: "0.6", Generator: "x"}
	for k := c.r.in(1, 3); k > 0; k-- {
		d := vhMakeDbLine(c, fmt.Sprint(1000+100*k+c.r.below(100)), 1000*k, points, &names)
		l := d.line
		sort.Slice(l.osm.Way, func(i, j int) bool { return len(l.osm.Way[i].Id) < len(l.osm.Way[j].Id) || (len(l.osm.Way[i].Id) == len(l.osm.Way[j].Id) && l.osm.Way[i].Id < l.osm.Way[j].Id) })
		r := &osmUtils.Relation{Id: strconv.Itoa(70 + k), Tag: []*osmUtils.Tag{vhTag("type", "route"),
			vhTag("route", []string{"tracks", "railway"}[c.r.below(2)]), vhTag("ref", d.ref)}}
		for _, w := range l.osm.Way {
			r.Member = append(r.Member, &osmUtils.Member{Type: "way", Ref: w.Id})
		}
		l.osm.Relation = []*osmUtils.Relation{r}
		lines = append(lines, d)
		base.Node = append(base.Node, l.osm.Node...)
		base.Way = append(base.Way, l.osm.Way...)
		base.Relation = append(base.Relation, r)
	}
	// what does not belong to a line
	other := vhRandomOsm(c, 4, 2)
	base.Node = append(base.Node, other.Node...)
	base.Way = append(base.Way, other.Way...)
	for i, ref := range []string{"12345", "7", "abcd", "1999", "12.5", "1e10", "-1.0", "12,5"} {
		route := "tracks"
		if ref == "1999" {
			route = "bus"
		}
		if c.r.chance(50) {
			base.Relation = append(base.Relation, &osmUtils.Relation{Id: strconv.Itoa(90 + i), Tag: []*osmUtils.Tag{vhTag("route", route), vhTag("ref", ref)},
				Member: []*osmUtils.Member{{Type: "way", Ref: other.Way[0].Id}}})
		}
	}
	// stations, on and off the track
	stations := []vhStation{}
	station := func(n *osmUtils.Node) {
		s := vhStation{node: n}
		kind := []string{"station", "halt", "facility"}[c.r.below(3)]
		n.Tag = append(n.Tag, vhTag("railway", kind))
		named := c.r.chance(80)
		if named {
			n.Tag = append(n.Tag, vhTag("name", "S"+n.Id))
		}
		city := c.r.chance(20)
		if city {
			n.Tag = append(n.Tag, vhTag([]string{"subway", "monorail"}[c.r.below(2)], "yes"))
		}
		s.keep = named && !city
		s.listed = s.keep && kind != "facility"
		stations = append(stations, s)
	}
	for k := c.r.below(6); k > 0; k-- {
		n := &osmUtils.Node{Id: strconv.Itoa(500 + k), Lat: "51." + strconv.Itoa(k), Lon: "9"}
		base.Node = append(base.Node, n)
		station(n)
	}
	onTrack := map[string]bool{}
	for _, d := range lines {
		for k := c.r.below(4); k > 0; k-- {
			n := d.line.nodes[c.r.below(len(d.line.nodes))]
			if c.r.chance(40) {
				n = d.line.nodes[len(d.line.nodes)-1]
			}
			if len(n.Tag) == 0 {
				station(n)
				onTrack[n.Id] = true
			}
		}
	}
	vhWriteOsm(filepath.Join(dir, "temp", "base.osm.pbf"), &base)
	vhWriteDb(c, filepath.Join(dir, "temp", "DBResources"), lines, points)
	sort.Slice(lines, func(i, j int) bool { return lines[i].ref < lines[j].ref })

	if c.r.chance(15) { // what has to be refused
		for _, a := range [][]string{{"-i", "nothing.osm.pbf"}, {"-i", "temp/DBResources/db0.xml"}, {}, {"--unknown"}} {
			rc, out := vhTool(c, dir, a...)
			c.check(rc != 0 && !strings.Contains(out, "panic"), "not-refused", a, " gives ", rc, ": ", out)
			_, err := os.Stat(filepath.Join(dir, "finalOsm.xml"))
			c.check(err != nil, "refused-with-output", a)
		}
	}
	color := func(w *osmUtils.Way) string {
		v, n := "", 0
		for _, t := range w.Tag {
			if t.K == "color" {
				v = t.V
				n++
			}
		}
		c.check(n == 1 && vhSaturated(v), "way-color", w.Id, " ", vhTags(w.Tag))
		return v
	}
	if c.r.chance(50) { // lines only
		rc, out := vhTool(c, dir, "-gl", "--output", "lines.xml")
		if c.check(rc == 0, "lines-failed", rc, ": ", out) {
			got := vhReadOsm(filepath.Join(dir, "lines.xml"))
			var nodes, ways, rels, wn, ww, wr []string
			for _, n := range got.Node {
				nodes = append(nodes, fmt.Sprint(n.Id, n.Lat, n.Lon, vhTags(n.Tag)))
			}
			for _, w := range got.Way {
				ways = append(ways, fmt.Sprint(w.Id, vhRefs(w)))
				color(w)
			}
			for _, r := range got.Relation {
				rels = append(rels, fmt.Sprint(r.Id, vhTags(r.Tag), len(r.Member)))
			}
			for _, d := range lines {
				for _, n := range d.line.osm.Node {
					wn = append(wn, fmt.Sprint(n.Id, n.Lat, n.Lon, vhTags(n.Tag)))
				}
				for _, w := range d.line.osm.Way {
					ww = append(ww, fmt.Sprint(w.Id, vhRefs(w)))
				}
				r := d.line.osm.Relation[0]
				wr = append(wr, fmt.Sprint(r.Id, vhTags(r.Tag), len(r.Member)))
			}
			c.eq(nodes, wn, "lines-nodes")
			c.eq(ways, ww, "lines-ways")
			c.eq(rels, wr, "lines-relations")
			c.eq(got.Version, "0.6", "version")
		}
	}
	// with the planning data, now and then added to other data
	args := []string{"-mdb", "-o", "out.xml"}
	var extra *osmUtils.Osm
	if c.r.chance(40) {
		extra = vhRandomOsm(c, c.r.in(1, 8), 0)
		for _, n := range extra.Node {
			n.Id = "8" + n.Id
			n.Tag = nil
			if c.r.chance(20) {
				n.Tag = append(n.Tag, vhTag("railway", []string{"station", "halt", "switch"}[c.r.below(3)]))
			}
		}
		for _, d := range lines { // some of the lines' ways are in it, too
			if c.r.chance(60) {
				for _, w := range d.line.osm.Way {
					extra.Way = append(extra.Way, &osmUtils.Way{Id: w.Id, Nd: w.Nd, Tag: []*osmUtils.Tag{vhTag("x", "y")}})
				}
				extra.Node = append(extra.Node, d.line.nodes...)
			}
		}
		extra.Way = append(extra.Way, &osmUtils.Way{Id: "77", Nd: []*osmUtils.Nd{{Ref: extra.Node[0].Id}}, Tag: []*osmUtils.Tag{vhTag("x", "z")}})
		vhWriteOsm(filepath.Join(dir, "extra.xml"), extra)
		args = append(args, "--additional-osm", "extra.xml")
		if c.r.chance(20) {
			os.WriteFile(filepath.Join(dir, "extra.txt"), []byte("<osm></osm>"), 0644)
			rc, out := vhTool(c, dir, "-mdb", "-o", "bad.xml", "--additional-osm", "extra.txt")
			c.check(rc != 0 && !strings.Contains(out, "panic"), "additional-not-xml", rc, ": ", out)
		}
	}
	rc, out := vhTool(c, dir, args...)
	if !c.check(rc == 0, "mapping-failed", rc, ": ", out) {
		return
	}
	c.nontriv = true
	got := vhReadOsm(filepath.Join(dir, "out.xml"))
	increasing := func(ids []string, key string) {
		for i := 1; i < len(ids); i++ {
			a, _ := strconv.Atoi(ids[i-1])
			b, _ := strconv.Atoi(ids[i])
			c.check(a < b, key, ids[i-1], " before ", ids[i])
		}
	}
	var ids []string
	nodes := map[string]*osmUtils.Node{}
	for _, n := range got.Node {
		ids = append(ids, n.Id)
		nodes[n.Id] = n
	}
	increasing(ids, "nodes-order")
	ids = nil
	ways := map[string]*osmUtils.Way{}
	for _, w := range got.Way {
		ids = append(ids, w.Id)
		ways[w.Id] = w
	}
	increasing(ids, "ways-order")
	ids = nil
	for _, r := range got.Relation {
		ids = append(ids, r.Id)
	}
	increasing(ids, "relations-order")
	// stations
	var search osmUtils.SearchFile
	b, err := os.ReadFile(filepath.Join(dir, "out.json"))
	if !c.check(err == nil && json.Unmarshal(b, &search) == nil, "search-index", err) {
		return
	}
	listed := 0
	isStation := map[string]bool{}
	for _, s := range stations {
		isStation[s.node.Id] = true
		x, ok := search.Stations[s.node.Id]
		c.check(ok == s.listed, "station-listed", s.node.Id, " ", vhTags(s.node.Tag))
		if s.listed {
			listed++
			c.check(ok && x.Name == "S"+s.node.Id && x.Lat == s.node.Lat && x.Lon == s.node.Lon, "station-entry", s.node.Id)
		}
		if s.keep {
			want := vhTags(s.node.Tag)
			if s.listed {
				want = append(want, "type=station")
			}
			if n := nodes[s.node.Id]; c.check(n != nil, "station-lost", s.node.Id) {
				c.eq(vhTags(n.Tag), want, "station-node", s.node.Id)
			}
		} else if k, _ := osmUtils.FindTagOnNode(s.node, "railway"); k != "facility" {
			c.check(nodes[s.node.Id] == nil, "station-kept", s.node.Id, " ", vhTags(s.node.Tag))
		}
	}
	c.eq(len(search.Stations), listed, "stations-listed")
	for _, n := range got.Node {
		if k, err := osmUtils.FindTagOnNode(n, "railway"); err == nil && (k == "station" || k == "halt") {
			t, _ := osmUtils.FindTagOnNode(n, "type")
			c.check(t == "station", "station-untyped", n.Id)
		}
	}
	c.stat("stations", listed)
	if extra != nil {
		// nothing is lost of the other data, and the lines' new nodes are there
		for _, n := range extra.Node {
			if isStation[n.Id] {
				continue
			}
			if k, _ := osmUtils.FindTagOnNode(n, "railway"); k == "station" || k == "halt" {
				c.check(nodes[n.Id] == nil, "additional-station", n.Id)
				continue
			}
			x := nodes[n.Id]
			c.check(x != nil && x.Lat == n.Lat && x.Lon == n.Lon && fmt.Sprint(vhTags(x.Tag)) == fmt.Sprint(vhTags(n.Tag)), "additional-node", n.Id)
		}
		for _, w := range extra.Way {
			c.check(ways[w.Id] != nil, "additional-way", w.Id)
		}
		fresh := 0
		for _, n := range got.Node {
			if i, _ := strconv.Atoi(n.Id); i > vhNewID {
				fresh++
			}
		}
		need := 0
		for _, d := range lines {
			all, none := d.mappable()
			if ways[d.line.osm.Way[0].Id] == nil {
				continue
			}
			for _, e := range d.elements {
				if e.anchor >= 0 || all {
					need++
				}
			}
			_ = none
		}
		c.check(fresh >= need, "additional-elements", fresh, " of ", need)
		c.stat("additional", 1)
	} else {
		m := vhMapped{halts: search.Halts, main: search.MainSignals, other: search.OtherSignals}
		seen := map[string]bool{}
		count := 0
		for _, d := range lines {
			sub := &osmUtils.Osm{}
			used := map[string]bool{}
			col := ""
			for i, w := range d.line.osm.Way {
				x := ways[w.Id]
				if !c.check(x != nil, "way-lost", d.ref, " ", w.Id) {
					return
				}
				sub.Way = append(sub.Way, x)
				v := color(x)
				c.check(i == 0 || v == col, "line-of-two-colors", d.ref)
				col = v
				for _, r := range vhRefs(x) {
					used[r] = true
				}
			}
			// a station on the track is as it was but for its type
			plain := &vhDbLine{ref: d.ref, elements: d.elements, partners: d.partners, line: &vhLine{nodes: d.line.nodes, border: d.line.border}}
			plain.line.osm.Way = d.line.osm.Way
			for _, n := range d.line.osm.Node {
				if x := nodes[n.Id]; isStation[n.Id] && x != nil {
					x.Tag = n.Tag
				} else if isStation[n.Id] {
					sub.Node = append(sub.Node, n) // left out on purpose
				}
				plain.line.osm.Node = append(plain.line.osm.Node, n)
			}
			for _, n := range got.Node {
				if used[n.Id] {
					sub.Node = append(sub.Node, n)
				}
			}
			byId := func(s []*osmUtils.Node) {
				sort.SliceStable(s, func(i, j int) bool {
					a, _ := strconv.Atoi(s[i].Id)
					b, _ := strconv.Atoi(s[j].Id)
					return a < b
				})
			}
			byId(sub.Node)
			byId(plain.line.osm.Node)
			vhCheckMapped(c, plain, sub, seen, m)
			count += len(d.line.osm.Way)
		}
		c.eq(len(got.Way), count, "ways")
		c.eq(len(got.Relation), len(lines), "relations")
	}
	c.sig(fmt.Sprint(len(lines), len(got.Node), len(got.Way), listed))
	c.note(len(lines), " lines, ", len(got.Node), " nodes, ", listed, " stations")
}
