package main

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

// The serialised-name tables: every struct field that the reflection driven
// encoder/decoder maps to an XMP property or native tag.

type tagField struct {
	Owner  *types.Named
	Field  *types.Var
	Tag    string // whole struct tag
	Raw    string // tag value for Key
	Name   string
	Attr   bool
	Omit   bool
	Any    bool
	Flat   bool
	Empty  bool
	BadOpt string
	BadVer string
	Min    []int
	Max    []int
	HasTag bool
	NoTag  bool // no tag of this key at all
	Path   string
}

func parseVer(s string) ([]int, bool) {
	parts := strings.Split(s, ".")
	if len(parts) == 0 || len(parts) > 3 {
		return nil, false
	}
	var v []int
	for _, x := range parts {
		n, err := strconv.Atoi(x)
		if err != nil || n < 0 {
			return nil, false
		}
		v = append(v, n)
	}
	for len(v) < 3 {
		v = append(v, 0)
	}
	return v, true
}

func parseTag(f *tagField, raw string) {
	toks := strings.Split(raw, ",")
	f.Raw = raw
	f.Name = toks[0]
	for _, o := range toks[1:] {
		switch o {
		case "attr":
			f.Attr = true
		case "empty":
			f.Empty = true
		case "omit":
			f.Omit = true
		case "any":
			f.Any = true
		case "flat":
			f.Flat = true
		case "", "omitempty", "chardata": // no effect
		default:
			if !strings.HasPrefix(o, "v") {
				f.BadOpt = o
				continue
			}
			s := o[1:]
			var ok bool
			switch {
			case strings.HasSuffix(s, "+"):
				f.Min, ok = parseVer(s[:len(s)-1])
			case strings.HasSuffix(s, "-"):
				f.Max, ok = parseVer(s[:len(s)-1])
			case strings.Contains(s, "<"):
				i := strings.Index(s, "<")
				f.Min, ok = parseVer(s[:i])
				if ok {
					f.Max, ok = parseVer(s[i+1:])
				}
				if ok && cmpVer(f.Min, f.Max) > 0 {
					ok = false
				}
			default:
				f.Min, ok = parseVer(s)
				f.Max = f.Min
			}
			if !ok {
				f.BadVer = o
			}
		}
	}
	if f.Name == "" {
		f.Name = f.Field.Name()
	}
}

func cmpVer(a, b []int) int {
	for i := range a {
		if a[i] != b[i] {
			if a[i] < b[i] {
				return -1
			}
			return 1
		}
	}
	return 0
}

func verOverlap(a, b *tagField) bool {
	// ranges are disjoint when one ends before the other starts
	before := func(x, y *tagField) bool { return x.Max != nil && y.Min != nil && cmpVer(x.Max, y.Min) < 0 }
	adj := func(x, y *tagField) bool { // v..<1.2 and v1.2+ share only the boundary, allowed by the tag grammar
		return x.Max != nil && y.Min != nil && cmpVer(x.Max, y.Min) == 0 && strings.Contains(x.Raw, "<")
	}
	return !(before(a, b) || before(b, a) || adj(a, b) || adj(b, a))
}

// tagFields lists the fields of st that participate for the given key,
// following embedding the way the type table does.
func tagFields(owner *types.Named, key string) []*tagField {
	return tagFieldsSeen(owner, key, "", map[*types.Named]bool{})
}

func tagFieldsSeen(owner *types.Named, key, path string, seen map[*types.Named]bool) []*tagField {
	st, ok := owner.Underlying().(*types.Struct)
	if !ok || seen[owner] {
		return nil
	}
	seen[owner] = true
	defer delete(seen, owner)
	var out []*tagField
	for i := 0; i < st.NumFields(); i++ {
		v := st.Field(i)
		tag := st.Tag(i)
		if !v.Exported() && !v.Anonymous() {
			continue
		}
		raw, has := reflect.StructTag(tag).Lookup(key)
		if raw == "-" {
			continue
		}
		if v.Anonymous() {
			if n := namedOf(v.Type()); n != nil {
				if _, ok := n.Underlying().(*types.Struct); ok {
					out = append(out, tagFieldsSeen(n, key, path+v.Name()+".", seen)...)
					continue
				}
			}
		}
		f := &tagField{Owner: owner, Field: v, Tag: tag, HasTag: has, NoTag: !has, Path: path + v.Name()}
		parseTag(f, raw)
		out = append(out, f)
	}
	return out
}

// xmpStructs: every struct type with at least one xmp tag.
func (p *Prog) xmpStructs() []*types.Named {
	var l []*types.Named
	for _, n := range p.NamedTypes() {
		st, ok := n.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			if _, has := reflect.StructTag(st.Tag(i)).Lookup("xmp"); has {
				l = append(l, n)
				break
			}
		}
	}
	return l
}

// wellFormed reports whether the conventional key:"value" tag syntax parses completely.
func wellFormedTag(tag string) bool {
	for strings.TrimSpace(tag) != "" {
		tag = strings.TrimLeft(tag, " ")
		i := strings.Index(tag, ":\"")
		if i <= 0 || strings.ContainsAny(tag[:i], " \"") {
			return false
		}
		tag = tag[i+1:]
		j := 1
		for j < len(tag) && tag[j] != '"' {
			if tag[j] == '\\' {
				j++
			}
			j++
		}
		if j >= len(tag) {
			return false
		}
		if _, err := strconv.Unquote(tag[:j+1]); err != nil {
			return false
		}
		tag = tag[j+1:]
		if tag != "" && tag[0] != ' ' {
			return false
		}
	}
	return true
}

func tagKeys(tag string) []string {
	var keys []string
	for strings.TrimSpace(tag) != "" {
		tag = strings.TrimLeft(tag, " ")
		i := strings.Index(tag, ":\"")
		if i <= 0 {
			return keys
		}
		keys = append(keys, tag[:i])
		tag = tag[i+1:]
		j := 1
		for j < len(tag) && tag[j] != '"' {
			if tag[j] == '\\' {
				j++
			}
			j++
		}
		if j >= len(tag) {
			return keys
		}
		tag = tag[j+1:]
	}
	return keys
}

func norm(s string) string {
	return strings.ToLower(strings.Map(func(r rune) rune {
		if r == '_' || r == '-' || r == '.' {
			return -1
		}
		return r
	}, s))
}

func local(s string) string {
	if i := strings.LastIndex(s, ":"); i >= 0 {
		return s[i+1:]
	}
	return s
}

func prefix(s string) string {
	if i := strings.Index(s, ":"); i >= 0 {
		return s[:i]
	}
	return ""
}

func init() {
	register("C12", checkTags)
}

func checkTags(p *Prog, r *Result) {
	r.Explain = "Every struct field tag that drives the encoder, decoder, path or native-tag access, for every struct type of the module: tag syntax, option words and version ranges, uniqueness of names within one struct per version range, namespace prefix present in the table of namespaces the module registers, agreement of the XMP and JSON name of one field, and no pair of fields that carry each other's name."
	ce := p.CE()
	reg := p.registered()
	pre := map[string]bool{}
	for _, n := range ce.nss {
		if reg[n] && !n.Unresolved {
			pre[n.Prefix] = true
		}
	}
	r.Units["registered_prefixes"] = len(pre)
	r.need("registered_prefixes", 25)
	known := map[string]bool{"xmp": true, "json": true, "xml": true, "yaml": true, "plist": true}
	for k := range pre {
		known[k] = true
	}
	for _, n := range p.xmpStructs() {
		r.Units["structs"]++
		st := n.Underlying().(*types.Struct)
		keys := map[string]bool{}
		for i := 0; i < st.NumFields(); i++ {
			tag := st.Tag(i)
			if tag == "" {
				continue
			}
			key := p.TName(n) + "." + st.Field(i).Name()
			pos := p.Pos(st.Field(i).Pos())
			if !wellFormedTag(tag) {
				r.fail("tag-syntax", key, pos, "struct tag %q does not parse, so its key/value pairs are ignored", tag)
				continue
			}
			ks := tagKeys(tag)
			seen := map[string]bool{}
			for _, k := range ks {
				if seen[k] && (k == "xmp" || k == "json") {
					r.fail("tag-key-dup", key+" "+k, pos, "key %q occurs twice in tag %q", k, tag)
				}
				seen[k] = true
				keys[k] = true
				if !known[k] {
					r.fail("tag-key", key+" "+k, pos, "tag key %q is neither xmp/json nor a registered namespace prefix", k)
				} else {
					r.Obligations++
					r.Discharged++
				}
			}
		}
		for k := range keys {
			if k == "json" || k == "xml" || k == "yaml" || k == "plist" {
				continue
			}
			checkTagTable(p, r, n, k, pre)
		}
		checkJSONNames(p, r, n)
		checkSwapped(p, r, n)
	}
	r.need("structs", 60)
	r.need("fields", 500)
}

func checkTagTable(p *Prog, r *Result, n *types.Named, key string, pre map[string]bool) {
	fs := tagFields(n, key)
	byName := map[string][]*tagField{}
	anyN := 0
	for _, f := range fs {
		r.Units["fields"]++
		id := p.TName(n) + "." + f.Path + " " + key
		pos := p.Pos(f.Field.Pos())
		if f.BadOpt != "" {
			r.fail("tag-option", id, pos, "unknown option %q in %s tag %q", f.BadOpt, key, f.Raw)
		}
		if f.BadVer != "" {
			r.fail("tag-version", id, pos, "malformed version %q in %s tag %q", f.BadVer, key, f.Raw)
		}
		if f.Any {
			anyN++
			if anyN > 1 {
				r.fail("tag-any", id, pos, "more than one catch-all field in %s", p.TName(n))
			}
		}
		if strings.ContainsAny(f.Name, " \t<>\"'/") && key == "xmp" {
			r.fail("tag-name", id, pos, "name %q is not an XML name", f.Name)
		}
		if key == "xmp" && f.HasTag && !f.Any {
			x := prefix(f.Name)
			if x == "" {
				if f.Raw != "" && !strings.HasPrefix(f.Raw, ",") && !f.Flat {
					r.fail("tag-prefix", id, pos, "property %q has no namespace prefix: it would be written without a declared namespace", f.Name)
				}
			} else if !pre[x] {
				r.fail("tag-prefix", id, pos, "property %q uses prefix %q, which no namespace of the module registers: encoding the field cannot declare it", f.Name, x)
			} else {
				r.ok("%s.%s -> %s", p.TName(n), f.Path, f.Name)
			}
		}
		if f.Omit {
			continue
		}
		byName[f.Name] = append(byName[f.Name], f)
	}
	var names []string
	for k := range byName {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, name := range names {
		l := byName[name]
		for i := range l {
			for j := i + 1; j < len(l); j++ {
				if verOverlap(l[i], l[j]) {
					r.fail("tag-unique", fmt.Sprintf("%s %s %s", p.TName(n), key, name), p.Pos(l[j].Field.Pos()),
						"fields %s and %s of %s both map to %s name %q: the whole type is rejected at run time or one field shadows the other", l[i].Path, l[j].Path, p.TName(n), key, name)
				} else {
					r.ok("%s: %s split by version", p.TName(n), name)
				}
			}
		}
		if len(l) == 1 {
			r.Obligations++
			r.Discharged++
		}
	}
}

func checkJSONNames(p *Prog, r *Result, n *types.Named) {
	st := n.Underlying().(*types.Struct)
	jn := map[string]string{}
	for i := 0; i < st.NumFields(); i++ {
		t := reflect.StructTag(st.Tag(i))
		x, okx := t.Lookup("xmp")
		j, okj := t.Lookup("json")
		f := st.Field(i)
		if okj && f.Exported() && j != "-" {
			name := strings.Split(j, ",")[0]
			if name != "" {
				if o, dup := jn[name]; dup {
					r.fail("json-unique", p.TName(n)+" "+name, p.Pos(f.Pos()), "fields %s and %s share the JSON name %q, so both are dropped from JSON", o, f.Name(), name)
				}
				jn[name] = f.Name()
			}
		}
		if !okx || !okj || x == "-" || j == "-" {
			continue
		}
		xn, jname := strings.Split(x, ",")[0], strings.Split(j, ",")[0]
		if xn == "" || jname == "" {
			continue
		}
		r.Units["xmp_json_pairs"]++
		if xn != jname && local(xn) != local(jname) {
			r.fail("xmp-json-name", p.TName(n)+"."+f.Name(), p.Pos(f.Pos()), "field is %q in XML but %q in JSON", xn, jname)
		} else {
			r.Obligations++
			r.Discharged++
		}
	}
}

func checkSwapped(p *Prog, r *Result, n *types.Named) {
	for _, key := range []string{"xmp", "json"} {
		fs := tagFields(n, key)
		for i, a := range fs {
			if a.NoTag || norm(local(a.Name)) == norm(a.Field.Name()) {
				continue
			}
			for j, b := range fs {
				if i == j || b.NoTag || a.Owner != b.Owner {
					continue
				}
				if norm(local(b.Name)) == norm(a.Field.Name()) && norm(local(a.Name)) == norm(b.Field.Name()) && i < j {
					r.fail("tag-swapped", p.TName(n)+" "+key+" "+a.Field.Name()+"/"+b.Field.Name(), p.Pos(a.Field.Pos()),
						"fields %s and %s of %s carry each other's %s name (%q, %q)", a.Field.Name(), b.Field.Name(), p.TName(n), key, a.Name, b.Name)
				}
			}
		}
	}
}
