package main

// A stand-in for `osmium tags-filter`: the files it reads and writes are OSM
// XML whatever they are called.

import (
	"encoding/xml"
	"os"
	"strings"

	osmUtils "transform-osm/osm-utils"
)

type vhFilter struct {
	types  string // of n, w, r
	key    string
	values []string
}

func vhParseFilter(s string) vhFilter {
	f := vhFilter{types: "nwr"}
	if t, rest, ok := strings.Cut(s, "/"); ok {
		f.types, s = t, rest
	}
	k, v, ok := strings.Cut(s, "=")
	f.key = k
	if ok {
		f.values = strings.Split(v, ",")
	}
	return f
}

func (f vhFilter) matches(kind string, tags []*osmUtils.Tag) bool {
	if !strings.Contains(f.types, kind) {
		return false
	}
	for _, t := range tags {
		if t.K != f.key {
			continue
		}
		if f.values == nil {
			return true
		}
		for _, v := range f.values {
			if v == t.V {
				return true
			}
		}
	}
	return false
}

func vhOsmiumFilter(in osmUtils.Osm, filters []vhFilter, invert, omitReferenced bool) osmUtils.Osm {
	hit := func(kind string, tags []*osmUtils.Tag) bool {
		for _, f := range filters {
			if f.matches(kind, tags) {
				return !invert
			}
		}
		return invert
	}
	n, w, r := map[string]bool{}, map[string]bool{}, map[string]bool{}
	for _, x := range in.Relation {
		if hit("r", x.Tag) {
			r[x.Id] = true
			for _, m := range x.Member {
				if omitReferenced {
					break
				}
				switch m.Type {
				case "way":
					w[m.Ref] = true
				case "node":
					n[m.Ref] = true
				}
			}
		}
	}
	for _, x := range in.Way {
		if hit("w", x.Tag) {
			w[x.Id] = true
		}
		if w[x.Id] && !omitReferenced {
			for _, nd := range x.Nd {
				n[nd.Ref] = true
			}
		}
	}
	for _, x := range in.Node {
		if hit("n", x.Tag) {
			n[x.Id] = true
		}
	}
	out := osmUtils.Osm{Version: "0.6", Generator: "osmium/1.14.0"}
	for _, x := range in.Node {
		if n[x.Id] {
			out.Node = append(out.Node, x)
		}
	}
	for _, x := range in.Way {
		if w[x.Id] {
			out.Way = append(out.Way, x)
		}
	}
	for _, x := range in.Relation {
		if r[x.Id] {
			out.Relation = append(out.Relation, x)
		}
	}
	return out
}

func vhOsmium(args []string) int {
	if len(args) == 0 || args[0] != "tags-filter" {
		return 2
	}
	var in, out string
	var filters []vhFilter
	invert, omit := false, false
	for i := 1; i < len(args); i++ {
		switch a := args[i]; {
		case a == "-o":
			i++
			out = args[i]
		case a == "-R":
			omit = true
		case a == "-i":
			invert = true
		case a == "--overwrite":
		case in == "":
			in = a
		default:
			filters = append(filters, vhParseFilter(a))
		}
	}
	data, err := os.ReadFile(in)
	if err != nil {
		return 1
	}
	var osm osmUtils.Osm
	if xml.Unmarshal(data, &osm) != nil {
		return 1
	}
	res, err := xml.MarshalIndent(vhOsmiumFilter(osm, filters, invert, omit), "", " ")
	if err != nil || os.WriteFile(out, append([]byte(xml.Header), res...), 0644) != nil {
		return 1
	}
	return 0
}
