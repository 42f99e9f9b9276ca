#!/usr/bin/env python3
# Generates types.go: message types, their reference schemas, and conversions
# between the two. Run: python3 gen_types.py > types_gen.go
import sys
KINDS=["Int32","Int64","Uint32","Uint64","Sint32","Sint64","Bool","Fixed32","Fixed64","Sfixed32","Sfixed64","Float","Double","String","Bytes"]
GO=dict(Int32="int32",Int64="int64",Uint32="uint32",Uint64="uint64",Sint32="int32",Sint64="int64",Bool="bool",Fixed32="uint32",Fixed64="uint64",Sfixed32="int32",Sfixed64="int64",Float="float32",Double="float64",String="string",Bytes="[]byte")
TAG=dict(Int32="varint",Int64="varint",Uint32="varint",Uint64="varint",Sint32="zigzag32",Sint64="zigzag64",Bool="varint",Fixed32="fixed32",Fixed64="fixed64",Sfixed32="fixed32",Sfixed64="fixed64",Float="fixed32",Double="fixed64",String="bytes",Bytes="bytes")
out=[]
p=out.append
p('// Code generated by gen_types.py. DO NOT EDIT.\n\npackage codec\n\nimport (\n\t"math"\n\n\t"github.com/cloudwego/prutal/internal/zzverif/ref"\n\t"github.com/cloudwego/prutal/internal/zzverif/sym"\n)\n\nvar _ = math.Float32bits\nvar _ = sym.B2U\n')
def toval(k,e):
    return {"Int32":f"ref.Val{{U: uint64(uint32({e}))}}","Sint32":f"ref.Val{{U: uint64(uint32({e}))}}","Sfixed32":f"ref.Val{{U: uint64(uint32({e}))}}",
     "Uint32":f"ref.Val{{U: uint64({e})}}","Fixed32":f"ref.Val{{U: uint64({e})}}",
     "Int64":f"ref.Val{{U: uint64({e})}}","Sint64":f"ref.Val{{U: uint64({e})}}","Sfixed64":f"ref.Val{{U: uint64({e})}}",
     "Uint64":f"ref.Val{{U: {e}}}","Fixed64":f"ref.Val{{U: {e}}}",
     "Bool":f"ref.Val{{U: sym.B2U({e})}}","Float":f"ref.Val{{U: uint64(math.Float32bits({e}))}}","Double":f"ref.Val{{U: math.Float64bits({e})}}",
     "String":f"ref.Val{{B: []byte({e})}}","Bytes":f"ref.Val{{B: {e}}}"}[k]
def fromval(k,v):
    return {"Float":f"math.Float32frombits(uint32({v}.U))","Double":f"math.Float64frombits({v}.U)","Bool":f"({v}.U != 0)","String":f"string({v}.B)","Bytes":f"{v}.B"}.get(k,f"{GO[k]}({v}.U)")
def msgtype(name,fields,keep=None,num0=1):
    # fields: list of (goname, num, kind, card, extra)
    p(f"type {name} struct {{")
    for (g,n,k,c,x) in fields:
        if k=="Msg":
            sub=x["sub"]
            if c=="Map":
                p(f'\t{g} map[{GO[x["key"]]}]{x.get("star","*")}{sub} `protobuf:"bytes,{n},rep,name={g}" protobuf_key:"{TAG[x["key"]]},1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`')
            elif c=="Rep":
                p(f'\t{g} []{x.get("star","*")}{sub} `protobuf:"bytes,{n},rep,name={g}"`')
            else:
                p(f'\t{g} {x.get("star","*")}{sub} `protobuf:"bytes,{n},opt,name={g}"`')
            continue
        t=GO[k]; tag=TAG[k]
        if c=="Implicit": p(f'\t{g} {t} `protobuf:"{tag},{n},opt,name={g},proto3"`')
        if c=="Explicit": p(f'\t{g} *{t} `protobuf:"{tag},{n},opt,name={g}"`')
        if c=="Rep": p(f'\t{g} []{t} `protobuf:"{tag},{n},rep,name={g}"`')
        if c=="Packed": p(f'\t{g} []{t} `protobuf:"{tag},{n},rep,packed,name={g}"`')
        if c=="Map": p(f'\t{g} map[{GO[x["key"]]}]{t} `protobuf:"bytes,{n},rep,name={g}" protobuf_key:"{TAG[x["key"]]},1,opt,name=key" protobuf_val:"{tag},2,opt,name=value"`')
    if keep=="direct": p("\tunknownFields []byte")
    if keep=="old": p("\tXXX_unrecognized []byte `json:\"-\"`")
    if keep=="ptr": p("\tunknownFields *[]byte")
    p("}\n")
    p(f"var schema{name} = &ref.Schema{{Keep: {'true' if keep else 'false'}, Fields: []*ref.Field{{")
    for (g,n,k,c,x) in fields:
        ex=""
        if c=="Map": ex+=f", Key: ref.{x['key']}"
        p(f"\t{{Num: {n}, Kind: ref.{k}, Card: ref.{c}{ex}}},")
    p("}}\n")
    subs=[(i,x["sub"]) for i,(g,n,k,c,x) in enumerate(fields) if k=="Msg"]
    if subs:
        p("func init() {")
        for i,s in subs: p(f"\tschema{name}.Fields[{i}].Sub = schema{s}")
        p("}\n")
    # dump
    p(f"func (x *{name}) dump() *ref.M {{\n\tif x == nil {{\n\t\treturn nil\n\t}}\n\tm := ref.New(schema{name})")
    for i,(g,n,k,c,x) in enumerate(fields):
        S=f"m.F[{i}]"
        if k=="Msg":
            star=x.get("star","*")
            amp="" if star else "&"
            if c=="Map":
                if star: p(f"\tfor k, v := range x.{g} {{\n\t\t{S}.Map = append({S}.Map, ref.Entry{{K: {toval(x['key'],'k')}, V: ref.Val{{M: v.dump()}}}})\n\t}}")
                else: p(f"\tfor k, v := range x.{g} {{\n\t\tw := v\n\t\t{S}.Map = append({S}.Map, ref.Entry{{K: {toval(x['key'],'k')}, V: ref.Val{{M: w.dump()}}}})\n\t}}")
            elif c=="Rep":
                p(f"\tfor i := range x.{g} {{\n\t\t{S}.List = append({S}.List, ref.Val{{M: x.{g}[i].dump()}})\n\t}}")
            elif star:
                p(f"\tif x.{g} != nil {{\n\t\t{S} = ref.Slot{{Set: true, V: ref.Val{{M: x.{g}.dump()}}}}\n\t}}")
            else:
                p(f"\t{S} = ref.Slot{{Set: true, V: ref.Val{{M: x.{g}.dump()}}}}")
            continue
        if c=="Implicit": p(f"\t{S}.V = {toval(k,'x.'+g)}")
        if c=="Explicit": p(f"\tif x.{g} != nil {{\n\t\t{S} = ref.Slot{{Set: true, V: {toval(k,'*x.'+g)}}}\n\t}}")
        if c in("Rep","Packed"): p(f"\tfor _, v := range x.{g} {{\n\t\t{S}.List = append({S}.List, {toval(k,'v')})\n\t}}")
        if c=="Map": p(f"\tfor k, v := range x.{g} {{\n\t\t{S}.Map = append({S}.Map, ref.Entry{{K: {toval(x['key'],'k')}, V: {toval(k,'v')}}})\n\t}}")
    if keep in("direct",): p("\tm.Unknown = x.unknownFields")
    if keep=="old": p("\tm.Unknown = x.XXX_unrecognized")
    if keep=="ptr": p("\tif x.unknownFields != nil {\n\t\tm.Unknown = *x.unknownFields\n\t}")
    p("\treturn m\n}\n")
    # fill: sets the struct from a reference message
    p(f"func (x *{name}) fill(m *ref.M) {{")
    for i,(g,n,k,c,x) in enumerate(fields):
        S=f"m.F[{i}]"
        if k=="Msg":
            star=x.get("star","*"); sub=x["sub"]
            if c=="Map":
                p(f"\tfor _, e := range {S}.Map {{\n\t\tif x.{g} == nil {{\n\t\t\tx.{g} = map[{GO[x['key']]}]{star}{sub}{{}}\n\t\t}}")
                if star: p(f"\t\tv := new({sub})\n\t\tv.fill(e.V.M)\n\t\tx.{g}[{fromval(x['key'],'e.K')}] = v\n\t}}")
                else: p(f"\t\tvar v {sub}\n\t\tv.fill(e.V.M)\n\t\tx.{g}[{fromval(x['key'],'e.K')}] = v\n\t}}")
            elif c=="Rep":
                if star: p(f"\tfor _, e := range {S}.List {{\n\t\tv := new({sub})\n\t\tv.fill(e.M)\n\t\tx.{g} = append(x.{g}, v)\n\t}}")
                else: p(f"\tfor _, e := range {S}.List {{\n\t\tvar v {sub}\n\t\tv.fill(e.M)\n\t\tx.{g} = append(x.{g}, v)\n\t}}")
            elif star:
                p(f"\tif {S}.Set {{\n\t\tx.{g} = new({sub})\n\t\tx.{g}.fill({S}.V.M)\n\t}}")
            else:
                p(f"\tif {S}.Set {{\n\t\tx.{g}.fill({S}.V.M)\n\t}}")
            continue
        if c=="Implicit": p(f"\tx.{g} = {fromval(k,S+'.V')}")
        if c=="Explicit": p(f"\tif {S}.Set {{\n\t\tv := {fromval(k,S+'.V')}\n\t\tx.{g} = &v\n\t}}")
        if c in("Rep","Packed"): p(f"\tfor _, e := range {S}.List {{\n\t\tx.{g} = append(x.{g}, {fromval(k,'e')})\n\t}}")
        if c=="Map": p(f"\tfor _, e := range {S}.Map {{\n\t\tif x.{g} == nil {{\n\t\t\tx.{g} = map[{GO[x['key']]}]{GO[k]}{{}}\n\t\t}}\n\t\tx.{g}[{fromval(x['key'],'e.K')}] = {fromval(k,'e.V')}\n\t}}")
    if keep=="direct": p("\tx.unknownFields = m.Unknown")
    if keep=="old": p("\tx.XXX_unrecognized = m.Unknown")
    if keep=="ptr": p("\tif len(m.Unknown) > 0 {\n\t\tu := m.Unknown\n\t\tx.unknownFields = &u\n\t}")
    p("}\n")
    p(f"func (x *{name}) schema() *ref.Schema {{ return schema{name} }}\n")
ALL=[]
def mt(name,*a,**k):
    ALL.append(name); msgtype(name,*a,**k)
# all scalar kinds
mt("Scalars",[(k,i+1,k,"Implicit",{}) for i,k in enumerate(KINDS)],keep="direct")
mt("Opts",[(k,i+1,k,"Explicit",{}) for i,k in enumerate(KINDS[:14])],keep="old")
mt("Lists",[(k,i+1,k,"Rep",{}) for i,k in enumerate(KINDS)])
mt("Packs",[(k,i+1,k,"Packed",{}) for i,k in enumerate(KINDS[:13])])
# one-field messages
for k in KINDS: mt("One"+k,[("V",1,k,"Implicit",{})])
for k in KINDS[:14]: mt("Opt"+k,[("V",1,k,"Explicit",{})])
for k in KINDS: mt("Lst"+k,[("V",1,k,"Rep",{})])
for k in KINDS[:13]: mt("Pck"+k,[("V",1,k,"Packed",{})])
# maps: every key kind and every value kind
KEYS=[k for k in KINDS if k not in("Float","Double","Bytes")]
for kk in KEYS:
    for vk in KINDS:
        mt("Map"+kk+vk,[("V",1,vk,"Map",{"key":kk})])
mt("Leaf",[("A",1,"Int32","Implicit",{})])
for kk in KEYS:
    mt("Map"+kk+"Msg",[("V",1,"Msg","Map",{"key":kk,"sub":"Leaf"})])
for kk in ("Int32","String","Fixed64","Bool"):
    mt("Map"+kk+"Val",[("V",1,"Msg","Map",{"key":kk,"sub":"Leaf","star":""})])
# nesting
mt("Nest",[("P",1,"Msg","Explicit",{"sub":"Nest"}),("L",2,"Msg","Rep",{"sub":"Nest"}),("A",3,"Int32","Implicit",{}),("S",4,"String","Implicit",{})],keep="direct")
mt("NestVal",[("V",1,"Msg","Implicit",{"sub":"Leaf","star":""}),("L",2,"Msg","Rep",{"sub":"Leaf","star":""}),("P",3,"Msg","Explicit",{"sub":"Leaf"})])
mt("Rec",[("P",1,"Msg","Explicit",{"sub":"Rec"}),("L",2,"Msg","Rec" and "Rep",{"sub":"Rec"}),("M",3,"Msg","Map",{"key":"Int32","sub":"Rec"}),("S",4,"Msg","Map",{"key":"String","sub":"Rec"}),("B",5,"Msg","Map",{"key":"Bool","sub":"Rec"}),("V",6,"Msg","Map",{"key":"Int64","sub":"Rec"})])
# unknown field storage
mt("UnkDirect",[("A",2,"Int32","Implicit",{})],keep="direct")
mt("UnkOld",[("A",2,"Int32","Implicit",{})],keep="old")
mt("UnkPtr",[("A",2,"Int32","Implicit",{})],keep="ptr")
mt("UnkNone",[("A",2,"Int32","Implicit",{})])
mt("UnkNest",[("A",2,"Int32","Implicit",{}),("N",3,"Msg","Explicit",{"sub":"UnkDirect"}),("P",4,"Msg","Explicit",{"sub":"UnkPtr"}),("L",5,"Msg","Rep",{"sub":"UnkOld"}),("M",6,"Msg","Map",{"key":"Int32","sub":"UnkDirect"})],keep="direct")
# field number boundaries
mt("Nums",[(f"F{n}",n,"Int32","Implicit",{}) for n in (15,16,999,1000,1001,1002,2047,2048,18999,262143,262144,536870911)],keep="direct")
mt("NumsHigh",[("A",536870911,"Int32","Implicit",{}),("B",1001,"String","Implicit",{}),("C",262144,"Int32","Packed",{}),("D",2048,"Int32","Map",{"key":"Int32"})],keep="direct")
# hand-written types of h_oneof.go
ALL+=["OneofA","OneofB"]
p("// message is what every generated message type offers.\ntype message interface {\n\tdump() *ref.M\n\tfill(*ref.M)\n\tschema() *ref.Schema\n}\n")
p("var newMsg = []func() message{")
for n in ALL: p(f"\tfunc() message {{ return new({n}) }},")
p("}\n")
p("const (")
for i,n in enumerate(ALL): p(f"\tT{n} = {i}")
p(")")
open("types_gen.go","w").write("\n".join(out)+"\n")

with open("../../cmd/vc/types_gen.go","w") as f:
    f.write("// Code generated by gen_types.py. DO NOT EDIT.\n\npackage main\n\nvar typeIdx = map[string]int64{\n")
    for i,n in enumerate(ALL): f.write(f'\t"{n}": {i},\n')
    f.write("}\n")
    f.write("\nvar kinds = []string{"+", ".join(f'"{k}"' for k in KINDS)+"}\n")
    f.write("\nvar keyKinds = []string{"+", ".join(f'"{k}"' for k in KEYS)+"}\n")
    f.write("\nvar typeNames = []string{"+", ".join(f'"{k}"' for k in ALL)+"}\n")
