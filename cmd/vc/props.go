package main

import "verif/engine"

type P = map[string]int64

func ty(n string) int64 {
	v, ok := typeIdx[n]
	if !ok {
		panic("no type " + n)
	}
	return v
}

func wt(kind string) int64 {
	switch kind {
	case "Fixed64", "Sfixed64", "Double":
		return 1
	case "Fixed32", "Sfixed32", "Float":
		return 5
	case "String", "Bytes", "Msg":
		return 2
	}
	return 0
}

func cat(a ...[]P) []P {
	var out []P
	for _, x := range a {
		out = append(out, x...)
	}
	return out
}

// on builds one parameter set per type, from base overridden by more.
func on(base P, types []string, more P) []P {
	var out []P
	for _, t := range types {
		p := P{"t": ty(t)}
		for k, v := range base {
			p[k] = v
		}
		for k, v := range more {
			p[k] = v
		}
		out = append(out, p)
	}
	return out
}

func names(prefix string, ks []string) []string {
	var out []string
	for _, k := range ks {
		out = append(out, prefix+k)
	}
	return out
}

func prefixed(prefix string) []string {
	var out []string
	for _, n := range typeNames {
		if len(n) > len(prefix) && n[:len(prefix)] == prefix {
			out = append(out, n)
		}
	}
	return out
}

// some returns every n-th element, starting at the i-th.
func some(a []string, i, n int) []string {
	var out []string
	for ; i < len(a); i += n {
		out = append(out, a[i])
	}
	return out
}

const allLens = 1<<10 - 1 // varints of every length

var (
	// bounds of schema-driven wire input
	wire = P{"k": 1, "k2": 1, "vm": 0x213, "sl": 2, "pe": 2, "unk": 0, "mf": 0, "lv": 2}
	// bounds of arbitrary messages
	msg = P{"k": 1, "k2": 1, "sl": 2, "le": 2, "me": 2, "lv": 2, "un": 0, "canon": 1}
	// raw bytes
	raw = P{"tag": -1, "pre": 0, "cont": 0}

	scalarTypes = []string{"Scalars", "Opts"}
	repTypes    = []string{"Lists", "Packs"}
	mapTypes    = prefixed("Map")
	nestTypes   = []string{"Nest", "NestVal", "Rec"}
	unkTypes    = []string{"UnkDirect", "UnkOld", "UnkPtr", "UnkNone", "UnkNest"}
	numTypes    = []string{"Nums", "NumsHigh"}
	bigTypes    = []string{"Scalars", "Lists", "MapStringString", "MapInt32Bytes", "MapStringMsg", "OneofA", "UnkPtr", "UnkDirect"}
	oneofTypes  = []string{"OneofA", "OneofB"}
	structTypes = []string{"Scalars", "Opts", "Lists", "Packs", "Nest", "NestVal", "Rec", "UnkNest", "OneofA", "NumsHigh"}
)

// a map type per key kind and per value kind, on both code paths
var mapQuick = func() []string {
	var out []string
	seen := map[string]bool{}
	add := func(n string) {
		if !seen[n] {
			seen[n] = true
			out = append(out, n)
		}
	}
	vs := append(append([]string(nil), kinds...), "Msg")
	for i, k := range keyKinds {
		add("Map" + k + vs[i%len(vs)])
		add("Map" + k + vs[(i*5+3)%len(vs)])
	}
	for i, v := range vs {
		add("Map" + keyKinds[(i*7+1)%len(keyKinds)] + v)
	}
	for _, n := range []string{"MapStringString", "MapStringMsg", "MapInt32Msg", "MapInt64Msg", "MapBoolMsg", "MapInt32Val", "MapStringVal", "MapUint64String", "MapInt32String"} {
		add(n)
	}
	return out
}()

var (
	histQuick = cat(on(wire, []string{"OneString", "LstBytes", "UnkDirect", "PckInt32"}, P{"n": 3, "vm": 1, "sl": 2, "unk": 0}),
		on(wire, []string{"MapStringString", "MapInt32Msg", "OneofB", "NestVal"}, P{"n": 2, "vm": 1, "sl": 1}))
	histThorough = cat(on(wire, []string{"OneString", "LstBytes", "UnkDirect", "PckInt32"}, P{"n": 4, "vm": 1, "sl": 2, "unk": 1}),
		on(wire, []string{"MapStringString", "MapInt32Msg", "OneofB", "NestVal", "Nest", "UnkNest"}, P{"n": 3, "vm": 1, "sl": 1, "unk": 1}))
)

func genLim(l *engine.Limits) { l.RealFmt = true }

func gen(fn, scope string, q, t []P) Job {
	return Job{Pkg: "gen", Func: fn, Setup: []string{"SetupGen"}, Lim: genLim, Q: q, T: t, Scope: scope}
}

func nameJobs(n, nop int, what ...int) (ps []P) {
	for _, w := range what {
		ps = append(ps, P{"n": int64(n), "nop": int64(nop), "what": int64(w), "getter": int64(w & 1)})
	}
	return
}

func raceLim(l *engine.Limits) { l.Race = true }

func codec(fn, scope string, q, t []P) Job {
	return Job{Pkg: "codec", Func: fn, Setup: []string{"SetupType"}, Q: q, T: t, Scope: scope}
}

const (
	scopeSeq = "all well-formed wire inputs of the message type (t) with up to k fields (k2 in nested messages, nesting lv), varints of the lengths in vm, strings to sl bytes, packed runs to pe elements, map entries of nine shapes when mf is set"
	scopeRaw = "all inputs of n bytes (after the concrete tag, if any) for the message type (t)"
	scopeMsg = "all messages of the type (t) with up to k populated fields (k2 in nested messages, nesting lv), every scalar value, strings to sl bytes, lists to le and maps to me elements, one unknown record when un is set"
)

var props = []Prop{
	{ID: "C01", Title: "Singular scalar fields decode as the protobuf encoding prescribes", Jobs: []Job{
		codec("HDecSeq", scopeSeq, cat(
			on(wire, []string{"Scalars", "Opts", "Nums"}, P{"vm": allLens, "unk": 1}),
			on(wire, scalarTypes, P{"k": 2, "sl": 1, "vm": 0x202}),
			on(wire, numTypes, P{"k": 2, "vm": 3, "unk": 1})),
			cat(on(wire, []string{"Scalars", "Opts", "Nums"}, P{"vm": allLens, "unk": 1, "sl": 5}),
				on(wire, scalarTypes, P{"k": 2, "vm": allLens}),
				on(wire, numTypes, P{"k": 2, "vm": 0x21f, "unk": 1}),
				on(wire, scalarTypes, P{"k": 3, "sl": 1, "vm": 3}))),
	}},
	{ID: "C02", Title: "Repeated fields decode packed and unpacked input, in order", Jobs: []Job{
		codec("HDecSeq", scopeSeq, cat(
			on(wire, []string{"Lists", "Packs", "NumsHigh"}, P{"vm": allLens, "pe": 1}),
			on(wire, []string{"Lists", "Packs"}, P{"vm": 0x203, "pe": 3, "sl": 1}),
			on(wire, cat2(names("Lst", kinds), names("Pck", kinds[:13])), P{"k": 3, "vm": 3, "pe": 2, "sl": 1}),
			on(wire, []string{"NestVal", "Nest"}, P{"k": 2, "vm": 1, "sl": 1})),
			cat(on(wire, []string{"Lists", "Packs", "NumsHigh"}, P{"vm": allLens, "pe": 2}),
				on(wire, []string{"Lists", "Packs"}, P{"k": 2, "vm": 3, "pe": 2, "sl": 1}),
				on(wire, cat2(names("Lst", kinds), names("Pck", kinds[:13])), P{"k": 4, "vm": 3, "pe": 3, "sl": 1}),
				on(wire, cat2(names("Lst", kinds), names("Pck", kinds[:13])), P{"k": 2, "vm": 0x21f, "pe": 3, "sl": 2}),
				on(wire, []string{"NestVal", "Nest"}, P{"k": 3, "vm": 1, "sl": 1}))),
		codec("HGrow", "lists of n elements arriving one by one or in packed runs of symbolic lengths, n around the growth steps",
			on(nil, []string{"LstInt32", "LstInt64", "LstString", "LstBool", "PckSint32", "PckFixed64", "Nest"}, P{"n": 18, "runs": 2}),
			on(nil, cat2(names("Lst", kinds), append(names("Pck", kinds[:13]), "Nest", "NestVal")), P{"n": 34, "runs": 3})),
	}},
	{ID: "C03", Title: "Map fields decode every valid entry", Jobs: []Job{
		codec("HDecSeq", scopeSeq, cat(
			on(wire, mapQuick, P{"mf": 1, "vm": 0x201, "sl": 1}),
			on(wire, []string{"MapInt32Int32", "MapStringString", "MapStringMsg", "MapBoolBool", "MapInt64Msg", "MapInt32Val"}, P{"k": 2, "mf": 1, "vm": 1, "sl": 1})),
			cat(on(wire, mapTypes, P{"mf": 1, "vm": 0x203, "sl": 2}),
				on(wire, mapQuick, P{"k": 2, "mf": 1, "vm": 1, "sl": 1}),
				on(wire, mapQuick, P{"mf": 0, "vm": 0x21f, "sl": 3}))),
	}},
	{ID: "C04", Title: "A oneof holds the last member on the wire, and keeps zero members", Jobs: []Job{
		codec("HDecSeq", scopeSeq, cat(
			on(wire, oneofTypes, P{"k": 2, "vm": 3, "sl": 1, "unk": 1, "lv": 2}),
			on(wire, oneofTypes, P{"k": 1, "vm": allLens, "lv": 2}),
			on(wire, oneofTypes, P{"k": 3, "k2": 1, "vm": 1, "sl": 1, "lv": 1})),
			cat(on(wire, oneofTypes, P{"k": 2, "vm": 0x203, "sl": 2, "unk": 1, "lv": 3}),
				on(wire, oneofTypes, P{"k": 3, "k2": 1, "vm": 3, "sl": 1, "lv": 2}))),
		codec("HEnc", scopeMsg, cat(
			on(msg, oneofTypes, P{"k": 3, "lv": 1, "un": 1, "sl": 1}), on(msg, oneofTypes, P{"k": 1, "lv": 2})),
			on(msg, oneofTypes, P{"k": 3, "lv": 2, "un": 1})),
	}},
	{ID: "C05", Title: "Concatenated encodings merge; decoding adds to a populated message", Jobs: []Job{
		codec("HMerge", "two well-formed inputs decoded as one and one after the other; "+scopeSeq, cat(
			on(wire, []string{"Scalars", "Opts", "OneofB"}, P{"vm": 2, "sl": 1}),
			on(wire, []string{"OneofA"}, P{"vm": 1, "sl": 1}),
			on(wire, []string{"Lists", "Packs"}, P{"vm": 1, "sl": 1, "pe": 1}),
			on(wire, []string{"MapInt32Int32", "MapStringString", "MapStringMsg", "MapUint64String", "MapFixed32Double", "MapInt32Val"}, P{"vm": 1, "sl": 1, "k": 2}),
			on(wire, []string{"Nest"}, P{"vm": 1, "sl": 1, "lv": 3}),
			on(wire, []string{"NestVal", "UnkNest"}, P{"vm": 1, "sl": 1, "lv": 2, "unk": 1})),
			cat(on(wire, []string{"Scalars", "Opts", "OneofB", "OneofA"}, P{"vm": 0x203}),
				on(wire, []string{"Lists", "Packs"}, P{"vm": 3, "pe": 2}),
				on(wire, mapQuick, P{"vm": 1, "sl": 1, "k": 2}),
				on(wire, []string{"Nest", "NestVal", "UnkNest"}, P{"k": 2, "vm": 1, "sl": 1, "lv": 2, "unk": 1}),
				on(wire, []string{"Nest"}, P{"vm": 3, "lv": 4}))),
	}},
	{ID: "C06", Title: "Encoding produces a valid, exact and minimal encoding of the message", Jobs: []Job{
		codec("HEnc", scopeMsg, cat(
			on(msg, []string{"Scalars", "Opts", "Lists", "Packs", "Nums", "OneofA", "OneofB"}, P{"un": 1}),
			on(msg, []string{"Nest"}, P{"un": 1, "sl": 1, "le": 1, "me": 1}),
			on(msg, []string{"Scalars", "Opts", "NumsHigh"}, P{"k": 2, "sl": 1, "le": 1}),
			on(msg, mapQuick, P{"me": 1}),
			on(msg, []string{"MapInt32Bool", "MapStringMsg", "MapBoolBool", "MapFixed32Fixed32"}, P{"me": 2, "sl": 1}),
			on(msg, []string{"NestVal"}, P{"canon": 0}),
			on(msg, []string{"UnkPtr", "UnkOld"}, P{"un": 1}),
			on(msg, []string{"UnkNest"}, P{"un": 1, "sl": 1, "le": 1, "me": 1})),
			cat(on(msg, []string{"Scalars", "Opts", "Nums", "NumsHigh", "OneofA", "Nest"}, P{"k": 2, "un": 1, "le": 1}),
				on(msg, []string{"Lists", "Packs"}, P{"le": 3, "sl": 4}),
				on(msg, mapTypes, P{"me": 2}),
				on(msg, []string{"NestVal"}, P{"canon": 0, "k": 2}),
				on(msg, []string{"UnkNest", "UnkPtr", "UnkOld", "Nest"}, P{"k": 2, "un": 1, "lv": 2}))),
		codec("HLens", "length prefixes: a nested message, string, packed run and map value of every length from lo to lo+n-1",
			on(nil, []string{"Scalars"}, P{"lo": 120, "n": 12}),
			cat(on(nil, []string{"Scalars"}, P{"lo": 100, "n": 60}), on(nil, []string{"Scalars"}, P{"lo": 16370, "n": 24}))),
	}},
	{ID: "C07", Title: "Decoding what was encoded gives the same message back", Jobs: []Job{
		codec("HRound", scopeMsg, cat(
			on(msg, []string{"Scalars", "Opts", "Lists", "Packs", "Nums", "OneofA", "OneofB", "NestVal"}, P{"un": 1}),
			on(msg, []string{"Nest", "UnkNest"}, P{"un": 1, "sl": 1, "le": 1, "me": 1}),
			on(msg, []string{"Scalars", "Opts"}, P{"k": 2, "sl": 1}),
			on(msg, mapQuick, P{"me": 1})),
			cat(on(msg, []string{"Scalars", "Opts", "Nums", "NumsHigh", "OneofA", "Nest", "NestVal", "UnkNest"}, P{"k": 2, "un": 1, "le": 1}),
				on(msg, []string{"Lists", "Packs"}, P{"le": 3, "sl": 4}),
				on(msg, mapTypes, P{"me": 2}))),
	}},
	{ID: "C08", Title: "The computed size is the length of the encoding", Jobs: []Job{
		codec("HSize", scopeMsg, cat(
			on(msg, []string{"Scalars", "Opts", "Lists", "Packs", "Nums", "OneofA", "OneofB", "NestVal", "UnkPtr"}, P{"un": 1}),
			on(msg, []string{"Nest", "UnkNest"}, P{"un": 1, "sl": 1, "le": 1, "me": 1}),
			on(msg, []string{"Scalars", "Opts"}, P{"k": 2, "sl": 1}),
			on(msg, mapQuick, P{"me": 1}),
			on(msg, []string{"MapStringMsg", "MapInt32String"}, P{"me": 2, "sl": 1})),
			cat(on(msg, []string{"Scalars", "Opts", "Nums", "NumsHigh", "OneofA", "Nest", "NestVal", "UnkNest", "UnkPtr"}, P{"k": 2, "un": 1, "le": 1}),
				on(msg, []string{"Lists", "Packs"}, P{"le": 3, "sl": 4}),
				on(msg, mapTypes, P{"me": 2}))),
		codec("HLens", "length prefixes: a nested message, string, packed run and map value of every length from lo to lo+n-1",
			on(nil, []string{"Scalars"}, P{"lo": 120, "n": 12}),
			cat(on(nil, []string{"Scalars"}, P{"lo": 100, "n": 60}), on(nil, []string{"Scalars"}, P{"lo": 16370, "n": 24}))),
	}},
	{ID: "C09", Title: "Appending an encoding leaves the rest of the buffer alone", Jobs: []Job{
		codec("HAppend", scopeMsg+"; prefixes to pl bytes, spare capacity to cap bytes", cat(
			on(msg, []string{"OneInt32", "OneString", "OneDouble", "LstBytes", "PckSint32", "OneofB", "UnkPtr"}, P{"un": 1, "pl": 2, "cap": 12, "sl": 2}),
			on(msg, []string{"MapStringMsg", "MapInt32Int32", "Nest"}, P{"me": 1, "le": 1, "pl": 1, "cap": 8, "sl": 1})),
			cat(on(msg, cat2(names("One", kinds), names("Lst", kinds), names("Pck", kinds[:13])), P{"pl": 2, "cap": 14, "sl": 2}),
				on(msg, []string{"Nest", "NestVal", "UnkNest", "OneofA"}, P{"un": 1, "le": 1, "pl": 1, "cap": 16, "sl": 1}),
				on(msg, mapQuick, P{"me": 1, "pl": 1, "cap": 12, "sl": 1}))),
	}},
	{ID: "C10", Title: "Encoding and sizing only read the message and can be repeated", Jobs: []Job{
		codec("HReadOnly", scopeMsg, cat(
			on(msg, []string{"Scalars", "Opts", "Lists", "Packs", "OneofA", "NestVal"}, P{"un": 1, "sl": 1}),
			on(msg, []string{"Nest", "UnkNest"}, P{"un": 1, "sl": 1, "le": 1, "me": 1}),
			on(msg, mapQuick, P{"me": 1, "sl": 1})),
			cat(on(msg, []string{"Scalars", "Opts", "OneofA", "Nest", "NestVal", "UnkNest"}, P{"k": 2, "un": 1, "sl": 1, "le": 1}),
				on(msg, []string{"Lists", "Packs"}, P{"le": 3}),
				on(msg, mapTypes, P{"me": 2, "sl": 1}))),
	}},
	{ID: "C11", Title: "Malformed and truncated input is rejected, valid input is accepted", Jobs: []Job{
		codec("HDec", scopeRaw, cat(
			on(raw, []string{"Scalars", "Lists", "Packs", "Opts", "OneofA", "UnkNest"}, P{"n": 3}),
			on(raw, []string{"OneInt64", "OneString", "UnkDirect", "Leaf"}, P{"n": 5}),
			on(raw, []string{"MapInt32Int32", "MapStringString", "MapBoolDouble", "MapStringMsg", "MapUint64String"}, P{"n": 4}),
			on(raw, []string{"OneUint64", "LstSint64", "PckUint32"}, P{"n": 12, "tag": 8, "cont": 8}),
			on(raw, []string{"PckInt64", "PckBool", "PckFixed32", "LstInt32", "OneBytes", "Nest"}, P{"n": 5, "tag": 10}),
			on(raw, []string{"MapInt32Int32", "MapSint64Bool"}, P{"n": 6, "tag": 10})),
			cat(on(raw, structTypes, P{"n": 4}),
				on(raw, cat2(names("One", kinds), names("Lst", kinds)), P{"n": 6}),
				on(raw, names("Pck", kinds[:13]), P{"n": 6, "tag": 10}),
				on(raw, []string{"OneUint64", "LstSint64", "PckUint32", "OneBool", "OneSint32"}, P{"n": 14, "tag": 8, "cont": 8}),
				on(raw, mapQuick, P{"n": 6, "tag": 10}))),
		codec("HTrunc", "every proper prefix of every well-formed input; "+scopeSeq, cat(
			on(wire, []string{"Scalars", "Lists", "Packs", "OneofA", "MapInt32Int32", "MapStringMsg", "Nest"}, P{"vm": 2, "unk": 1, "sl": 1})),
			on(wire, cat2(structTypes, mapQuick), P{"vm": 0x202, "unk": 1, "mf": 1})),
	}},
	{ID: "C12", Title: "No input makes decoding crash or touch memory it should not", Jobs: []Job{
		codec("HCrash", scopeRaw+", into an empty or (pre) a fully populated message", cat(
			on(raw, structTypes, P{"n": 3}),
			on(raw, structTypes, P{"n": 3, "pre": 1}),
			on(raw, mapQuick, P{"n": 5, "tag": 10}),
			on(raw, mapQuick[:6], P{"n": 5, "tag": 10, "pre": 1})),
			cat(on(raw, structTypes, P{"n": 4}),
				on(raw, structTypes, P{"n": 4, "pre": 1}),
				on(raw, mapTypes, P{"n": 6, "tag": 10}),
				on(raw, mapQuick, P{"n": 6, "tag": 10, "pre": 1}))),
	}},
	{ID: "C13", Title: "Decoded messages share no memory with the input or each other", Jobs: []Job{
		codec("HAlias", scopeSeq, cat(
			on(wire, []string{"Scalars", "Opts", "Lists", "Packs", "OneofA", "NestVal", "UnkPtr"}, P{"vm": 3, "unk": 1, "sl": 3}),
			on(wire, []string{"UnkNest"}, P{"vm": 1, "unk": 1, "sl": 3}),
			on(wire, []string{"Nest"}, P{"k": 2, "vm": 1, "unk": 1}),
			on(wire, []string{"Lists", "LstBytes", "LstString"}, P{"k": 2, "vm": 1, "sl": 2, "pe": 1}),
			on(wire, mapQuick, P{"vm": 1, "sl": 2})),
			cat(on(wire, structTypes, P{"k": 2, "vm": 1, "unk": 1, "sl": 2, "pe": 1}),
				on(wire, mapTypes, P{"vm": 1, "sl": 3, "mf": 1}),
				on(wire, mapQuick, P{"k": 2, "vm": 1, "sl": 1}))),
		codec("HSpan", "n strings of boundary lengths interleaved with 8-byte scalars, sharing allocator blocks",
			[]P{{"t": ty("Lists"), "n": 3}}, []P{{"t": ty("Lists"), "n": 5}}),
		codec("HBig", "n strings, byte strings, map keys, map values or unknown fields with lengths around every allocation threshold",
			on(nil, bigTypes, P{"n": 2, "sizes": 9}), on(nil, bigTypes, P{"n": 3, "sizes": 10})),
		codec("HHist", "n messages decoded one after another, valid or malformed, each looked at again after every later decode; "+scopeSeq, histQuick, histThorough),
	}},
	{ID: "C14", Title: "What decoding leaves behind depends only on the input", Jobs: []Job{
		codec("HDet", scopeRaw+"; accepted or rejected", cat(
			on(raw, structTypes, P{"n": 3}),
			on(raw, mapQuick, P{"n": 4, "tag": 10})),
			cat(on(raw, structTypes, P{"n": 4}),
				on(raw, mapTypes, P{"n": 5, "tag": 10}))),
		codec("HReuse", "a message whose lists keep their capacity is decoded into again; "+scopeSeq,
			on(wire, []string{"Lists", "Packs", "NestVal", "Nest"}, P{"vm": 1, "sl": 1}),
			on(wire, []string{"Lists", "Packs", "NestVal", "Nest"}, P{"k": 2, "vm": 1, "sl": 1})),
		codec("HHist", "n messages decoded one after another, valid or malformed, each compared with the reference; "+scopeSeq, histQuick, histThorough),
	}},
	{ID: "C15", Title: "Memory used for decoding is proportional to the input", Jobs: []Job{
		codec("HAlloc", scopeRaw, cat(
			on(raw, []string{"Scalars", "Lists", "Packs", "UnkNest", "OneofA"}, P{"n": 4}),
			on(raw, []string{"Nest", "NestVal", "Rec"}, P{"n": 5}),
			on(raw, mapQuick, P{"n": 5, "tag": 10}),
			on(raw, cat2(names("Pck", kinds[:13]), []string{"LstString", "LstBytes", "OneString", "OneBytes"}), P{"n": 6, "tag": 10})),
			cat(on(raw, structTypes, P{"n": 5}), on(raw, mapTypes, P{"n": 7, "tag": 10}),
				on(raw, cat2(names("Pck", kinds[:13]), []string{"LstString", "LstBytes", "OneString", "OneBytes"}), P{"n": 8, "tag": 10}))),
	}},
	{ID: "C16", Title: "Nesting is limited to the same depth in decoding, encoding and sizing", Jobs: []Job{
		{Pkg: "codec", Func: "HDepth", Setup: []string{"SetupDeep"},
			Scope: "messages nested lo..lo+n-1 deep, through singular, list (by pointer and by value), map (four key kinds, by pointer and by value) and oneof fields mixed in any pattern of outer, middle and inner steps",
			Q:     []P{{"lo": 999, "n": 3, "inner": 0}}, T: []P{{"lo": 999, "n": 3, "inner": 1}, {"lo": 996, "n": 9, "inner": 0}}},
	}},
	{ID: "C17", Title: "Unknown fields survive decoding and encoding", Jobs: []Job{
		codec("HUnk", scopeSeq, cat(
			on(wire, []string{"UnkDirect", "UnkOld", "UnkPtr", "UnkNone"}, P{"k": 3, "vm": 1, "unk": 1, "pre": 1}),
			on(wire, []string{"UnkDirect", "UnkPtr"}, P{"k": 2, "vm": 1, "unk": 1, "pre": 0}),
			on(wire, []string{"UnkNest"}, P{"k": 1, "k2": 2, "vm": 1, "unk": 1, "pre": 0}),
			on(wire, []string{"NumsHigh", "OneofA", "Nest"}, P{"k": 1, "vm": 1, "sl": 1, "unk": 1, "pre": 1})),
			cat(on(wire, []string{"UnkDirect", "UnkOld", "UnkPtr", "UnkNone"}, P{"k": 4, "vm": 1, "unk": 1, "pre": 1}),
				on(wire, []string{"UnkNest"}, P{"k": 2, "k2": 2, "vm": 1, "unk": 1, "pre": 1}),
				on(wire, []string{"NumsHigh", "OneofA", "Nest"}, P{"k": 2, "vm": 1, "sl": 1, "unk": 1, "pre": 1}))),
		codec("HDec", scopeRaw, on(raw, []string{"UnkDirect", "UnkOld", "UnkPtr"}, P{"n": 5}),
			on(raw, []string{"UnkDirect", "UnkOld", "UnkPtr"}, P{"n": 7})),
	}},
	{ID: "C19", Title: "Struct tags mean what they say", Jobs: []Job{
		{Pkg: "codec", Func: "HTagNum", Scope: "field numbers written as any sequence of digits: 23 prefixes up to 24 digits followed by n arbitrary ones, in three tag layouts", Q: []P{{"n": 2, "enc": 0}, {"n": 1, "enc": 1}, {"n": 1, "enc": 2}}, T: []P{{"n": 2, "enc": 0}, {"n": 2, "enc": 1}, {"n": 2, "enc": 2}}},
		{Pkg: "codec", Func: "HTagText", Scope: "names, json names, enum names and default values of n arbitrary characters, defaults followed by option-like text", Q: []P{{"n": 3}}, T: []P{{"n": 6}}},
		{Pkg: "codec", Func: "HTagBad", Scope: "tags without usable number or encoding", Q: []P{nil}},
		{Pkg: "codec", Func: "HTagDup", Scope: "pairs of field numbers of n digits (after the digit hi, if any)", Q: []P{{"n": 3, "hi": 1}, {"n": 1, "hi": 0}}, T: []P{{"n": 3, "hi": 1}, {"n": 2, "hi": 0}, {"n": 7, "hi": 2}}},
	}},
	{ID: "C20", Title: "Only struct types that can be represented are accepted", Jobs: []Job{
		{Pkg: "codec", Func: "HAccField", Scope: "eight shapes of field over 30 Go types, six encodings and three labels; accepted ones decode b arbitrary bytes after a tag of any wire type", Q: []P{{"b": 2}}, T: []P{{"b": 4}}},
		{Pkg: "codec", Func: "HAccMap", Scope: "map keys and values over 30 Go types in four shapes, six encodings, three labels; accepted ones decode b arbitrary bytes after a tag of any wire type", Q: []P{{"b": 3}}, T: []P{{"b": 5}}},
		{Pkg: "codec", Func: "HAccUnk", Scope: "fifteen ways to declare something like an unknown-field holder; an unknown field of n arbitrary bytes between two known ones", Q: []P{{"n": 3}}, T: []P{{"n": 8}}},
	}},
	{ID: "C21", Title: "Neither concurrency nor the order of first uses changes any outcome", Jobs: []Job{
		{Pkg: "codec", Func: "HFirst", Scope: "n first uses of mutually recursive message types, in any order, with types that cannot be supported in between; field contents symbolic",
			Q: []P{{"n": 3}}, T: []P{{"n": 4}}},
		{Pkg: "codec", Func: "HConc", Ord: true, Fresh: true, Lim: raceLim, Scope: "n goroutines using mutually recursive types, for the first time or not, every schedule with at most sw preemptions at synchronisation operations, data races by happens-before",
			Q: []P{{"n": 2, "ops": 4, "warm": 0, "sw": 1}, {"n": 2, "ops": 3, "warm": 1, "sw": 1}},
			T: []P{{"n": 2, "ops": 5, "warm": 0, "sw": 2}, {"n": 2, "ops": 3, "warm": 1, "sw": 2}, {"n": 3, "ops": 3, "warm": 0, "sw": 1}}},
		{Pkg: "codec", Func: "HShare", Setup: []string{"SetupType"}, Ord: true, Lim: raceLim, Scope: "n goroutines encoding or sizing one message; " + scopeMsg,
			Q: on(msg, []string{"Scalars", "OneofA", "MapStringMsg", "MapInt32Int32", "UnkNest"}, P{"n": 2, "sl": 1, "me": 1, "le": 1, "sw": 1}),
			T: on(msg, cat2(structTypes, mapQuick), P{"n": 2, "sl": 1, "me": 1, "le": 1, "sw": 1})},
		{Pkg: "codec", Func: "HPools", Setup: []string{"SetupType"}, Ord: true, Lim: raceLim, Scope: "n goroutines decoding into messages of their own; " + scopeSeq,
			Q: on(wire, []string{"OneString", "MapStringString", "MapInt32Msg", "LstBytes", "UnkDirect"}, P{"n": 2, "vm": 1, "sl": 1, "sw": 1}),
			T: on(wire, cat2(structTypes, mapQuick), P{"n": 2, "vm": 1, "sl": 1, "sw": 1})},
	}},
	{ID: "C22", Title: "Numbers in a .proto file mean what they say", Jobs: []Job{
		gen("HNum", "field numbers given as any of 18 literal prefixes followed by n arbitrary hexadecimal digits (decimal, octal, hexadecimal, near every limit, beyond 64 bits, or no literal), on a field, a oneof member and a map", []P{{"n": 1}}, []P{{"n": 2}}),
		gen("HNumSet", "two fields in four shapes of message with arbitrary n-digit numbers, reserved numbers and ranges in five forms", []P{{"n": 1}}, []P{{"n": 2}}),
		gen("HEnumNum", "enum numbers given as any of nine literal prefixes followed by n arbitrary hexadecimal digits, with and without sign; in a message when nested is set", []P{{"n": 1, "nested": 0}}, []P{{"n": 1, "nested": 1}, {"n": 2, "nested": 0}}),
		gen("HEnumSet", "two enum values with arbitrary n-digit numbers and signs, reserved ranges in four forms, allow_alias absent, true and false", []P{{"n": 1}}, []P{{"n": 2}}),
		gen("HEnumNeg", "reserved ranges with negative bounds", []P{{"n": 1}}, nil),
		gen("HReservedName", "field, oneof, map and enum value names and reserved names of n arbitrary characters, in six shapes of declaration", []P{{"n": 1}}, []P{{"n": 2}}),
	}},
	{ID: "C24", Title: "String literals have the value they spell", Jobs: []Job{
		gen("HStr", "literals of n arbitrary bytes (escapes and the bytes after them included) in either quote, alone or next to other literals", []P{{"n": 2, "full": 0}}, []P{{"n": 2, "full": 1}, {"n": 3, "full": 0}}),
	}},
	{ID: "C25", Title: "Comments never change the generated code", Jobs: []Job{
		{Pkg: "gen", Func: "HComment", Scope: "a comment of n arbitrary ASCII characters in any of three forms, at every one of the places (lo and following) between the tokens of a file with every kind of declaration", Setup: []string{"SetupComment"}, Lim: genLim, Q: []P{{"lo": 0, "cnt": 28, "n": 1}, {"lo": 28, "cnt": 28, "n": 1}, {"lo": 56, "cnt": 28, "n": 1}}, T: []P{{"lo": 0, "cnt": 28, "n": 2}, {"lo": 28, "cnt": 28, "n": 2}, {"lo": 56, "cnt": 28, "n": 2}}},
	}},
	{ID: "C26", Title: "Type references mean the type protobuf's scoping rules select", Jobs: []Job{
		gen("HRefNest", "messages and enums nested to depth three in one file, every choice of their names, package, place of the reference and reference of up to parts parts, with or without leading dot; references to nothing when und is set",
			[]P{{"parts": 3, "und": 0}, {"parts": 1, "und": 1}}, []P{{"parts": 3, "und": 1}}),
		gen("HRefFile", "three files importing each other, plainly or publicly, in every combination of four packages; names and references as above",
			[]P{{"parts": 2, "names": 2, "und": 0}}, []P{{"parts": 3, "names": 3, "und": 0}, {"parts": 2, "names": 2, "und": 1}}),
	}},
	{ID: "C27", Title: "Code of files in several Go packages compiles and refers to the right types", Jobs: []Job{
		gen("HOpts", "two go_opt options, one of eight prefixes with n arbitrary characters, one of five fixed ones, in either order, joined by a comma or not", []P{{"n": 2}}, []P{{"n": 4}}),
		gen("HPackageOpt", "a file loaded or imported, from the file system or embedded, with and without M option and go_package option, package paths and names with n arbitrary characters", []P{{"n": 1}}, []P{{"n": 2}}),
		gen("HImport", "two imported files whose go_package is one of seven prefixes and n arbitrary characters, with and without an explicit name, against six packages for the other file; full adds all combinations", []P{{"n": 1, "full": 0}}, []P{{"n": 1, "full": 1}, {"n": 2, "full": 0}}),
	}},
	{ID: "C28", Title: "Every declaration appears in the generated code under its protoc-gen-go name", Jobs: []Job{
		gen("HName", "the what-th of nine names of a file (messages, enums, enum values, fields, oneofs) is one of up to six prefixes and n arbitrary identifier characters; with the no_enum_prefix directive when nop is set",
			nameJobs(1, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8), cat(nameJobs(1, 1, 2, 3, 4, 5), nameJobs(2, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8))),
	}},
	{ID: "C29", Title: "Generator directives and options take effect where they are given", Jobs: []Job{
		gen("HDirective", "the what-th directive written in eight forms with one arbitrary character, at every place where it can be given, before and after the declaration, in nested and top-level declarations, with the options it competes with; full adds all combinations", []P{{"what": 0, "full": 0}, {"what": 1, "full": 0}, {"what": 2, "full": 0}, {"what": 3, "full": 0}}, []P{{"what": 0, "full": 1}, {"what": 1, "full": 1}, {"what": 2, "full": 1}, {"what": 3, "full": 1}}),
	}},
	{ID: "C30", Title: "Services are reported to code generators as declared", Jobs: []Job{
		gen("HService", "a service, method or type name of one of five prefixes and n arbitrary characters, streams, six forms of type reference for request and response, three method endings; full adds all combinations", []P{{"n": 1, "full": 0}}, []P{{"n": 1, "full": 1}, {"n": 2, "full": 0}}),
	}},
	{ID: "C31", Title: "Imports are loaded once, in order, from the right place; cycles are refused", Jobs: []Job{
		gen("HGraph", "every import graph over n files, acyclic ones in either order of the import statements and with a file that may be missing; with every edge when cyclic is set", []P{{"n": 4, "cyclic": 0}, {"n": 3, "cyclic": 1}}, []P{{"n": 5, "cyclic": 0}, {"n": 4, "cyclic": 1}}),
		gen("HSearch", "three include directories, one inside another, any of which has the imported file, three import names, two ways of placing output, an arbitrary byte in the command line; a formatted file when format is set", []P{{"format": 1}}, []P{{"format": 0}}),
	}},
	{ID: "C23", Title: "A generated field is encoded as its declaration says", Jobs: []Job{
		gen("HField", "every combination of field type, label or map or oneof, syntax or edition features, packing, pointer options and six field numbers; contents symbolic",
			[]P{{"syn": 0, "getter": 0, "full": 0}, {"syn": 1, "getter": 1, "full": 0}, {"syn": 2, "getter": 0, "full": 0}}, []P{{"syn": 2, "getter": 1, "full": 1}, {"syn": 0, "getter": 1, "full": 1}}),
	}},
	{ID: "C18", Title: "Everything a decoded message refers to stays visible to the collector", Jobs: []Job{
		{Pkg: "codec", Func: "HGC", Setup: []string{"SetupType"}, Scope: scopeSeq, Lim: func(l *engine.Limits) { l.GCCheck = true },
			Q: cat(
				on(wire, []string{"Scalars", "Opts", "Lists", "Packs", "OneofA", "NestVal", "UnkPtr", "UnkNest"}, P{"vm": 1, "unk": 1, "sl": 1}),
				on(wire, []string{"Nest"}, P{"k": 2, "vm": 1, "unk": 1, "sl": 1}),
				on(wire, mapQuick, P{"vm": 1, "sl": 1})),
			T: cat(
				on(wire, structTypes, P{"k": 2, "vm": 1, "unk": 1, "sl": 1, "pe": 1}),
				on(wire, mapTypes, P{"k": 2, "vm": 1, "sl": 1, "mf": 0}))},
		{Pkg: "codec", Func: "HGrowGC", Setup: []string{"SetupType"}, Scope: "lists of lo..lo+n-1 elements", Lim: func(l *engine.Limits) { l.GCCheck = true },
			Q: on(nil, []string{"LstString", "LstBytes", "NestVal"}, P{"lo": 30, "n": 50}),
			T: on(nil, []string{"LstString", "LstBytes", "NestVal"}, P{"lo": 100, "n": 200})},
	}},
}

func cat2(a ...[]string) []string {
	var out []string
	for _, x := range a {
		out = append(out, x...)
	}
	return out
}
