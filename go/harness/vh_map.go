package main

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	dbUtils "transform-osm/db-utils"
	"transform-osm/db-utils/mapper"
	osmUtils "transform-osm/osm-utils"
)

// What the elements of the planning data become: tag in the data, subtype,
// direction, whether they have a name.
type vhKind struct {
	tag, sub, dir string
	named         bool
}

var vhKinds = []vhKind{
	{"Betriebsstellengrenze", "border", "", false}, {"Prellbock", "bumper", "", false}, {"Gleisende", "track_end", "", true},
	{"Weichenanfang", "simple_switch", "", true}, {"KreuzungsweicheAnfangLinks", "cross", "", true},
	{"HauptsignalF", "ms", "falling", true}, {"HauptsignalS", "ms", "rising", true},
	{"VorsignalF", "as", "falling", true}, {"VorsignalS", "as", "rising", true},
	{"SchutzsignalF", "ps", "falling", true}, {"SchutzsignalS", "ps", "rising", true},
	{"HalteplatzGzF", "hlt", "falling", true}, {"HalteplatzGzS", "hlt", "rising", true},
	{"HalteplatzRzF", "hlt", "falling", true}, {"HalteplatzRzS", "hlt", "rising", true},
	{"KmSprungAnfang", "km_jump", "", false}, {"GeschwZulaessigF", "spl", "falling", false}, {"GeschwZulaessigS", "spl", "rising", false},
	{"Neigung", "slope", "", false}, {"Tunnel", "tunnel", "", true},
	{"SignalZugschlussstelleF", "eotd", "falling", false}, {"SignalZugschlussstelleS", "eotd", "rising", false},
	{"FstrZugschlussstelleF", "eotd", "falling", false}, {"FstrZugschlussstelleS", "eotd", "rising", false},
	{"Streckenwechsel0", "line_switch", "", false},
}

type vhElement struct {
	kind        vhKind
	name        string
	km          float64 // three decimals
	speed, rise string
	fall        string
	anchor      int // node of the line that is marked as this element, or -1
	marks       int // number of nodes that are
}

// Tags the node made for the element has to have.
func (e vhElement) tags() string {
	t := []string{"type=element", "subtype=" + e.kind.sub}
	if e.kind.dir != "" {
		t = append(t, "direction="+e.kind.dir)
	}
	if e.kind.named {
		t = append(t, "id="+e.name)
	}
	switch e.kind.sub {
	case "spl":
		t = append(t, "speed="+e.speed)
	case "slope":
		t = append(t, "rising="+e.rise, "falling="+e.fall)
	}
	return strings.Join(t, " ")
}

func vhKm(km float64) string {
	return strings.ReplaceAll(strconv.FormatFloat(km, 'f', 3, 64), ".", ",")
}

func (e vhElement) xml(id int, c *vhCtx) string {
	s := "<" + e.kind.tag + "><ID>" + strconv.Itoa(id) + "</ID>"
	km := vhKm(e.km)
	if e.km > 1 && c.r.chance(10) { // written as a sum
		m := math.Round(e.km*1000) - 1000
		km = "1,000+" + vhKm(m/1000)
	}
	s += "<Kilometrierung>" + km + "</Kilometrierung>"
	if e.kind.sub == "" {
		return s + "<Partner ID=\"" + strconv.Itoa(id+1) + "\">" + e.name + "</Partner></" + e.kind.tag + ">"
	}
	if e.kind.named {
		tag := "Name"
		if e.kind.sub == "cross" {
			tag = "NameAnfang"
		}
		s += "<" + tag + ">" + e.name + "</" + tag + ">"
	}
	if e.kind.sub == "spl" {
		s += "<Geschw>" + e.speed + "</Geschw>"
	}
	if e.kind.sub == "slope" {
		s += "<Steigend>" + e.rise + "</Steigend><Fallend>" + e.fall + "</Fallend>"
	}
	return s + "</" + e.kind.tag + ">"
}

// A line of the network together with its planning data.
type vhDbLine struct {
	ref      string
	line     *vhLine
	sections [][][]vhElement // sections at operational points, nodes, elements
	points   []int           // operational point of each section
	elements []vhElement
	partners []vhElement // other ends of switches: places that are known, no elements
}

func vhMakeDbLine(c *vhCtx, ref string, firstID, points int, names *int) *vhDbLine {
	d := &vhDbLine{ref: ref, line: vhMakeLine(c, c.r.in(8, 40), firstID, 0, 0)}
	l := d.line
	name := func(prefix string) string {
		*names++
		return prefix + strconv.Itoa(*names)
	}
	free := []int{}
	for i := 1; i+1 < len(l.nodes); i++ {
		free = append(free, i)
	}
	c.r.shuffle(len(free), func(i, j int) { free[i], free[j] = free[j], free[i] })
	offset := float64(c.r.in(0, 200))
	taken := map[float64]bool{}
	anchored := []int{0, 1, 2, 3, 3, 5}[c.r.below(6)]
	add := func(e vhElement) {
		if e.anchor >= 0 {
			e.km = offset + math.Round(l.pos[e.anchor]*1000)/1000
			if taken[e.km] {
				return
			}
			taken[e.km] = true
			n := l.nodes[e.anchor]
			if e.kind.sub == "ms" {
				mark := e.name
				if c.r.chance(40) {
					mark = e.name[:1] + " " + e.name[1:]
				}
				n.Tag = append(n.Tag, vhTag("railway", "signal"), vhTag("ref", mark))
			} else {
				n.Tag = append(n.Tag, vhTag("railway", "switch"), vhTag([]string{"ref", "name"}[c.r.below(2)], e.name))
			}
		} else {
			e.km = offset + math.Round(l.pos[len(l.pos)-1]*c.r.real()*1000)/1000
		}
		d.elements = append(d.elements, e)
	}
	for ; anchored > 0 && len(free) > 0; anchored-- {
		k := []vhKind{vhKinds[3], vhKinds[5], vhKinds[6]}[c.r.below(3)]
		add(vhElement{kind: k, name: name(map[string]string{"ms": "A", "simple_switch": "W"}[k.sub]), anchor: free[0], marks: 1})
		free = free[1:]
	}
	for n := []int{0, 0, 1, 3}[c.r.below(4)]; n > 0 && len(free) > 2; n-- {
		e := vhElement{kind: vhKind{tag: []string{"Weichenstamm", "WeichenabzweigLinks", "WeichenabzweigRechts"}[c.r.below(3)]}, name: name("P"), anchor: free[0]}
		e.km = offset + math.Round(l.pos[e.anchor]*1000)/1000
		free = free[1:]
		if taken[e.km] {
			continue
		}
		taken[e.km] = true
		l.nodes[e.anchor].Tag = append(l.nodes[e.anchor].Tag, vhTag("railway", "switch"), vhTag([]string{"ref", "name"}[c.r.below(2)], e.name))
		d.partners = append(d.partners, e)
		c.stat("partners", 1)
	}
	for n := c.r.below(25); n > 0; n-- {
		e := vhElement{kind: vhKinds[c.r.below(len(vhKinds))], anchor: -1}
		if e.kind.named {
			e.name = name("N")
		}
		e.speed, e.rise, e.fall = strconv.Itoa(c.r.in(1, 30)*10), strconv.Itoa(c.r.below(30)), strconv.Itoa(c.r.below(30))
		if e.kind.sub == "ms" && c.r.chance(20) && len(free) > 2 { // two nodes are marked as it
			for k := 0; k < 2; k++ {
				l.nodes[free[0]].Tag = append(l.nodes[free[0]].Tag, vhTag("railway", "signal"), vhTag("ref", e.name))
				free = free[1:]
			}
			e.marks = 2
		}
		add(e)
	}
	c.r.shuffle(len(d.elements), func(i, j int) { d.elements[i], d.elements[j] = d.elements[j], d.elements[i] })
	// spread over sections and their nodes
	sections := c.r.in(1, 4)
	for s := 0; s < sections; s++ {
		d.sections = append(d.sections, make([][]vhElement, c.r.in(1, 3)))
		d.points = append(d.points, c.r.below(points))
	}
	for _, e := range append(append([]vhElement{}, d.elements...), d.partners...) {
		s := d.sections[c.r.below(sections)]
		k := c.r.below(len(s))
		s[k] = append(s[k], e)
	}
	return d
}

// The planning data of all lines, cut into files.
func vhWriteDb(c *vhCtx, dir string, lines []*vhDbLine, points int) {
	files := make([]bytes.Buffer, c.r.in(1, 3))
	id := 0
	for p := 0; p < points; p++ {
		f := &files[c.r.below(len(files))]
		fmt.Fprintf(f, "<Spurplanbetriebsstelle><Betriebsstelle>P%d</Betriebsstelle><Spurplanabschnitte>", p)
		for _, l := range lines {
			for s, sec := range l.sections {
				if l.points[s] != p {
					continue
				}
				fmt.Fprintf(f, "<Spurplanabschnitt><Strecke>%s</Strecke>", l.ref)
				for _, k := range sec {
					f.WriteString("<Spurplanknoten>")
					for _, e := range k {
						id++
						f.WriteString(e.xml(id, c))
					}
					f.WriteString("</Spurplanknoten>")
				}
				f.WriteString("</Spurplanabschnitt>")
			}
		}
		f.WriteString("</Spurplanabschnitte></Spurplanbetriebsstelle>")
	}
	for i := range files {
		enc := []string{"ISO-8859-1", "UTF-8"}[c.r.below(2)]
		text := "<?xml version=\"1.0\" encoding=\"" + enc + "\"?>\n<XmlIssDaten><Spurplanbetriebsstellen>" + files[i].String() +
			"</Spurplanbetriebsstellen></XmlIssDaten>"
		if err := os.WriteFile(filepath.Join(dir, fmt.Sprintf("db%d.xml", i)), []byte(text), 0644); err != nil {
			panic(err)
		}
	}
}

func vhReadOsm(path string) *osmUtils.Osm {
	b, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	var o osmUtils.Osm
	if err := xml.Unmarshal(b, &o); err != nil {
		panic(err)
	}
	return &o
}

const vhNewID = 100000000000

type vhMapped struct {
	halts map[string]osmUtils.Halt
	main  map[string]osmUtils.Signal
	other map[string]osmUtils.Signal
}

// What became of a line: `osm` has to be the line with its elements added.
func vhCheckMapped(c *vhCtx, d *vhDbLine, osm *osmUtils.Osm, seen map[string]bool, m vhMapped) {
	l := d.line
	who := "line " + d.ref + ": "
	anchored := []vhElement{}
	for _, e := range d.elements {
		if e.anchor >= 0 {
			anchored = append(anchored, e)
		}
	}
	all, none := d.mappable()
	// nothing of the line is lost
	isNew := func(id string) bool { n, _ := strconv.Atoi(id); return n > vhNewID }
	old := []string{}
	fresh := map[string]*osmUtils.Node{}
	for _, n := range osm.Node {
		if isNew(n.Id) {
			c.check(!seen[n.Id], "new-id-twice", who, n.Id)
			seen[n.Id] = true
			fresh[n.Id] = n
		} else {
			old = append(old, fmt.Sprint(n.Id, n.Lat, n.Lon, vhTags(n.Tag)))
		}
	}
	want := []string{}
	for _, n := range l.osm.Node {
		want = append(want, fmt.Sprint(n.Id, n.Lat, n.Lon, vhTags(n.Tag)))
	}
	c.eq(old, want, "nodes-kept", who)
	if !c.eq(len(osm.Way), len(l.osm.Way), "ways-kept", who) {
		return
	}
	at := map[string]string{} // old node of the same place next to which a new one is
	place := map[string]*osmUtils.Node{}
	for _, n := range l.osm.Node {
		place[n.Id] = n
	}
	for i, w := range osm.Way {
		kept := []string{}
		for _, r := range vhRefs(w) {
			if !isNew(r) {
				kept = append(kept, r)
			} else if c.check(fresh[r] != nil, "way-of-unknown-node", who, r) {
				at[r] = w.Id
			}
		}
		c.eq(kept, vhRefs(l.osm.Way[i]), "way-kept", who, w.Id)
		// a new node lies where one of the nodes next to it lies
		refs := vhRefs(w)
		for k, r := range refs {
			if !isNew(r) || fresh[r] == nil {
				continue
			}
			ok := false
			for j := k; j >= 0 && !ok; j-- {
				if x := place[refs[j]]; x != nil {
					ok = x.Lat == fresh[r].Lat && x.Lon == fresh[r].Lon
					break
				}
			}
			for j := k; j < len(refs) && !ok; j++ {
				if x := place[refs[j]]; x != nil {
					ok = x.Lat == fresh[r].Lat && x.Lon == fresh[r].Lon
					break
				}
			}
			c.check(ok, "new-node-place", who, r, " at ", fresh[r].Lat, " ", fresh[r].Lon, " in ", refs)
		}
	}
	for id := range fresh {
		c.check(at[id] != "", "new-node-off-track", who, id)
	}
	// every element exactly once
	have, need := []string{}, []string{}
	for _, n := range fresh {
		have = append(have, strings.Join(vhTags(n.Tag), " "))
	}
	for _, e := range d.elements {
		if !none || e.anchor >= 0 {
			need = append(need, e.tags())
		}
	}
	sort.Strings(have)
	sort.Strings(need)
	if all || none {
		c.eq(have, need, "elements", who)
	} else {
		rest := append([]string{}, have...)
		for _, t := range need {
			if len(rest) > 0 && rest[0] == t {
				rest = rest[1:]
			}
		}
		c.check(len(rest) == 0, "elements-made-up", who, rest)
		c.stat("lines_partly_mapped", 1)
	}
	c.stat("elements", len(need))
	c.stat("anchors", len(anchored))
	if all {
		c.stat("lines_mapped", 1)
		c.nontriv = true
	} else if none {
		c.stat("lines_without_anchors", 1)
	}
	// elements that are marked in the map are there
	byTags := map[string]*osmUtils.Node{}
	for _, n := range fresh {
		byTags[strings.Join(vhTags(n.Tag), " ")] = n
	}
	for _, e := range anchored {
		if n := byTags[e.tags()]; c.check(n != nil, "anchor-missing", who, e.name) {
			c.check(n.Lat == l.nodes[e.anchor].Lat && n.Lon == l.nodes[e.anchor].Lon, "anchor-place", who, e.name, " at ", n.Lat, " ", n.Lon)
		}
	}
	// the search index
	for _, e := range d.elements {
		n := byTags[e.tags()]
		if n == nil || !e.kind.named {
			continue
		}
		hits, wrong := 0, 0
		look := func(name, lat, lon string) {
			if name == e.name {
				hits++
				if lat != n.Lat || lon != n.Lon {
					wrong++
				}
			}
		}
		switch e.kind.sub {
		case "hlt":
			for _, x := range m.halts {
				look(x.Name, x.Lat, x.Lon)
			}
			c.check(m.halts[n.Id].Name == e.name, "halt-index", who, e.name)
		case "ms":
			for _, x := range m.main {
				look(x.Name, x.Lat, x.Lon)
			}
			if e.anchor < 0 {
				c.check(m.main[n.Id].Name == e.name, "signal-index", who, e.name)
			}
		case "as", "ps":
			for _, x := range m.other {
				look(x.Name, x.Lat, x.Lon)
			}
			c.check(m.other[n.Id].Name == e.name, "other-signal-index", who, e.name)
		default:
			continue
		}
		c.check(hits == 1 && wrong == 0, "index", who, e.name, " is listed ", hits, " times, ", wrong, " elsewhere")
	}
}

// Whether all elements of the line can be given a place, or only those marked in
// the map. A signal at the end of a way becomes a node within two ways, from
// which others cannot be sought.
func (d *vhDbLine) mappable() (all, none bool) {
	anchors, good := 0, 0
	for _, e := range d.elements {
		if e.anchor >= 0 {
			anchors++
			if e.kind.sub != "ms" || !d.line.border[e.anchor] {
				good++
			}
		}
	}
	anchors += len(d.partners)
	good += len(d.partners)
	return good >= 2, anchors < 2
}

func vhCountKinds(lines []*vhDbLine) (halts, mains, others int) {
	for _, d := range lines {
		_, none := d.mappable()
		for _, e := range d.elements {
			if none && e.anchor < 0 {
				continue
			}
			switch e.kind.sub {
			case "hlt":
				halts++
			case "ms":
				mains++
			case "as", "ps":
				others++
			}
		}
	}
	return
}

func vhG03(c *vhCtx) {
	dir := filepath.Join(c.scratch, fmt.Sprint("map", c.idx))
	os.RemoveAll(dir)
	defer os.RemoveAll(dir)
	osmDir, dbDir, res := filepath.Join(dir, "lines"), filepath.Join(dir, "DBLines"), filepath.Join(dir, "res")
	for _, d := range []string{dir, osmDir, res} {
		os.Mkdir(d, 0755)
	}
	points := c.r.in(1, 5)
	lines := []*vhDbLine{}
	refs := []string{}
	names := 0
	for k := c.r.in(1, 3); k > 0; k-- {
		ref := fmt.Sprint(1000 + 100*k + c.r.below(100))
		lines = append(lines, vhMakeDbLine(c, ref, 1000*k, points, &names))
		refs = append(refs, ref)
	}
	vhWriteDb(c, res, lines, points)
	// lines only one side knows of
	known := append([]string{}, refs...)
	unknown := ""
	if len(known) > 1 && c.r.chance(30) {
		unknown = known[len(known)-1]
		known = known[:len(known)-1]
	}
	if c.r.chance(30) {
		known = append(known, "9999")
	}
	if c.r.chance(20) {
		known = append(known, known[0])
	}
	var relevant []string
	var err error
	vhQuiet(func() { relevant, err = dbUtils.Parse(known, dbDir, res) })
	if !c.check(err == nil, "parse-failed", err) {
		return
	}
	expect := []string{}
	for _, r := range refs {
		if r != unknown {
			expect = append(expect, r)
		}
	}
	sort.Strings(expect)
	got := append([]string{}, relevant...)
	sort.Strings(got)
	c.eq(got, expect, "parse-lines")
	files, _ := filepath.Glob(filepath.Join(dbDir, "*"))
	c.eq(len(files), len(expect), "parse-files", files)
	for _, d := range lines {
		path := filepath.Join(dbDir, d.ref+"_DB.xml")
		if d.ref == unknown {
			continue
		}
		b, err := os.ReadFile(path)
		if !c.check(err == nil, "parse-file", path) {
			continue
		}
		var x mapper.XmlIssDaten
		if !c.check(xml.Unmarshal(b, &x) == nil, "parse-malformed", path) {
			continue
		}
		// each operational point once and with its sections
		have := map[string][]string{}
		for _, p := range x.Betriebsstellen {
			if !c.check(len(p.Name) == 1, "parse-point-name", path) {
				continue
			}
			n := p.Name[0].Name
			c.check(have[n] == nil, "parse-point-twice", n)
			for _, a := range p.Abschnitte {
				c.eq(a.StreckenNr.Nummer, d.ref, "parse-other-line", path)
				s := ""
				for _, k := range a.Knoten {
					s += fmt.Sprint("|", len(k.HauptsigF), len(k.HauptsigS), len(k.WeichenAnf), len(k.Neigung), len(k.MaxSpeedF), len(k.MaxSpeedS),
						len(k.HalteplGzF), len(k.HalteplRzS), len(k.VorsigF), len(k.SchutzsigS), len(k.Tunnel), len(k.BetriebsStGr))
				}
				have[n] = append(have[n], s)
			}
		}
		want := map[string][]string{}
		for s, sec := range d.sections {
			t := ""
			for _, k := range sec {
				n := map[string]int{}
				for _, e := range k {
					n[e.kind.tag]++
				}
				t += fmt.Sprint("|", n["HauptsignalF"], n["HauptsignalS"], n["Weichenanfang"], n["Neigung"], n["GeschwZulaessigF"], n["GeschwZulaessigS"],
					n["HalteplatzGzF"], n["HalteplatzRzS"], n["VorsignalF"], n["SchutzsignalS"], n["Tunnel"], n["Betriebsstellengrenze"])
			}
			p := fmt.Sprint("P", d.points[s])
			want[p] = append(want[p], t)
		}
		c.eq(have, want, "parse-sections", path)
	}
	// map
	before := map[string]string{}
	mappedLines := []*vhDbLine{}
	for _, d := range lines {
		p := filepath.Join(osmDir, d.ref+".xml")
		vhWriteOsm(p, &d.line.osm)
		b, _ := os.ReadFile(p)
		before[d.ref] = string(b)
		if d.ref != unknown {
			mappedLines = append(mappedLines, d)
		}
	}
	var m vhMapped
	var last int
	vhQuiet(func() { m.halts, m.main, m.other, last, err = dbUtils.MapDB(relevant, osmDir, dbDir) })
	if !c.check(err == nil, "map-failed", err) {
		return
	}
	seen := map[string]bool{}
	for _, d := range mappedLines {
		vhCheckMapped(c, d, vhReadOsm(filepath.Join(osmDir, d.ref+".xml")), seen, m)
	}
	c.eq(len(seen), last-vhNewID, "ids-used")
	for id := range seen {
		n, _ := strconv.Atoi(id)
		c.check(n > vhNewID && n <= last, "id-range", id, " of ", last)
	}
	h, s, o := vhCountKinds(mappedLines)
	exact := true
	for _, d := range mappedLines {
		all, none := d.mappable()
		exact = exact && (all || none)
	}
	if exact {
		c.eq([]int{len(m.halts), len(m.main), len(m.other)}, []int{h, s, o}, "index-sizes")
	} else {
		c.check(len(m.halts) <= h && len(m.main) <= s && len(m.other) <= o, "index-too-big")
	}
	if unknown != "" {
		b, _ := os.ReadFile(filepath.Join(osmDir, unknown+".xml"))
		c.check(string(b) == before[unknown], "other-line-changed", unknown)
	}
	c.sig(fmt.Sprint(refs, len(seen), points))
	c.note(len(lines), " lines, ", len(seen), " elements")
}
