// Code generated by gen_types.py. DO NOT EDIT.

package main

var typeIdx = map[string]int64{
	"Scalars":             0,
	"Opts":                1,
	"Lists":               2,
	"Packs":               3,
	"OneInt32":            4,
	"OneInt64":            5,
	"OneUint32":           6,
	"OneUint64":           7,
	"OneSint32":           8,
	"OneSint64":           9,
	"OneBool":             10,
	"OneFixed32":          11,
	"OneFixed64":          12,
	"OneSfixed32":         13,
	"OneSfixed64":         14,
	"OneFloat":            15,
	"OneDouble":           16,
	"OneString":           17,
	"OneBytes":            18,
	"OptInt32":            19,
	"OptInt64":            20,
	"OptUint32":           21,
	"OptUint64":           22,
	"OptSint32":           23,
	"OptSint64":           24,
	"OptBool":             25,
	"OptFixed32":          26,
	"OptFixed64":          27,
	"OptSfixed32":         28,
	"OptSfixed64":         29,
	"OptFloat":            30,
	"OptDouble":           31,
	"OptString":           32,
	"LstInt32":            33,
	"LstInt64":            34,
	"LstUint32":           35,
	"LstUint64":           36,
	"LstSint32":           37,
	"LstSint64":           38,
	"LstBool":             39,
	"LstFixed32":          40,
	"LstFixed64":          41,
	"LstSfixed32":         42,
	"LstSfixed64":         43,
	"LstFloat":            44,
	"LstDouble":           45,
	"LstString":           46,
	"LstBytes":            47,
	"PckInt32":            48,
	"PckInt64":            49,
	"PckUint32":           50,
	"PckUint64":           51,
	"PckSint32":           52,
	"PckSint64":           53,
	"PckBool":             54,
	"PckFixed32":          55,
	"PckFixed64":          56,
	"PckSfixed32":         57,
	"PckSfixed64":         58,
	"PckFloat":            59,
	"PckDouble":           60,
	"MapInt32Int32":       61,
	"MapInt32Int64":       62,
	"MapInt32Uint32":      63,
	"MapInt32Uint64":      64,
	"MapInt32Sint32":      65,
	"MapInt32Sint64":      66,
	"MapInt32Bool":        67,
	"MapInt32Fixed32":     68,
	"MapInt32Fixed64":     69,
	"MapInt32Sfixed32":    70,
	"MapInt32Sfixed64":    71,
	"MapInt32Float":       72,
	"MapInt32Double":      73,
	"MapInt32String":      74,
	"MapInt32Bytes":       75,
	"MapInt64Int32":       76,
	"MapInt64Int64":       77,
	"MapInt64Uint32":      78,
	"MapInt64Uint64":      79,
	"MapInt64Sint32":      80,
	"MapInt64Sint64":      81,
	"MapInt64Bool":        82,
	"MapInt64Fixed32":     83,
	"MapInt64Fixed64":     84,
	"MapInt64Sfixed32":    85,
	"MapInt64Sfixed64":    86,
	"MapInt64Float":       87,
	"MapInt64Double":      88,
	"MapInt64String":      89,
	"MapInt64Bytes":       90,
	"MapUint32Int32":      91,
	"MapUint32Int64":      92,
	"MapUint32Uint32":     93,
	"MapUint32Uint64":     94,
	"MapUint32Sint32":     95,
	"MapUint32Sint64":     96,
	"MapUint32Bool":       97,
	"MapUint32Fixed32":    98,
	"MapUint32Fixed64":    99,
	"MapUint32Sfixed32":   100,
	"MapUint32Sfixed64":   101,
	"MapUint32Float":      102,
	"MapUint32Double":     103,
	"MapUint32String":     104,
	"MapUint32Bytes":      105,
	"MapUint64Int32":      106,
	"MapUint64Int64":      107,
	"MapUint64Uint32":     108,
	"MapUint64Uint64":     109,
	"MapUint64Sint32":     110,
	"MapUint64Sint64":     111,
	"MapUint64Bool":       112,
	"MapUint64Fixed32":    113,
	"MapUint64Fixed64":    114,
	"MapUint64Sfixed32":   115,
	"MapUint64Sfixed64":   116,
	"MapUint64Float":      117,
	"MapUint64Double":     118,
	"MapUint64String":     119,
	"MapUint64Bytes":      120,
	"MapSint32Int32":      121,
	"MapSint32Int64":      122,
	"MapSint32Uint32":     123,
	"MapSint32Uint64":     124,
	"MapSint32Sint32":     125,
	"MapSint32Sint64":     126,
	"MapSint32Bool":       127,
	"MapSint32Fixed32":    128,
	"MapSint32Fixed64":    129,
	"MapSint32Sfixed32":   130,
	"MapSint32Sfixed64":   131,
	"MapSint32Float":      132,
	"MapSint32Double":     133,
	"MapSint32String":     134,
	"MapSint32Bytes":      135,
	"MapSint64Int32":      136,
	"MapSint64Int64":      137,
	"MapSint64Uint32":     138,
	"MapSint64Uint64":     139,
	"MapSint64Sint32":     140,
	"MapSint64Sint64":     141,
	"MapSint64Bool":       142,
	"MapSint64Fixed32":    143,
	"MapSint64Fixed64":    144,
	"MapSint64Sfixed32":   145,
	"MapSint64Sfixed64":   146,
	"MapSint64Float":      147,
	"MapSint64Double":     148,
	"MapSint64String":     149,
	"MapSint64Bytes":      150,
	"MapBoolInt32":        151,
	"MapBoolInt64":        152,
	"MapBoolUint32":       153,
	"MapBoolUint64":       154,
	"MapBoolSint32":       155,
	"MapBoolSint64":       156,
	"MapBoolBool":         157,
	"MapBoolFixed32":      158,
	"MapBoolFixed64":      159,
	"MapBoolSfixed32":     160,
	"MapBoolSfixed64":     161,
	"MapBoolFloat":        162,
	"MapBoolDouble":       163,
	"MapBoolString":       164,
	"MapBoolBytes":        165,
	"MapFixed32Int32":     166,
	"MapFixed32Int64":     167,
	"MapFixed32Uint32":    168,
	"MapFixed32Uint64":    169,
	"MapFixed32Sint32":    170,
	"MapFixed32Sint64":    171,
	"MapFixed32Bool":      172,
	"MapFixed32Fixed32":   173,
	"MapFixed32Fixed64":   174,
	"MapFixed32Sfixed32":  175,
	"MapFixed32Sfixed64":  176,
	"MapFixed32Float":     177,
	"MapFixed32Double":    178,
	"MapFixed32String":    179,
	"MapFixed32Bytes":     180,
	"MapFixed64Int32":     181,
	"MapFixed64Int64":     182,
	"MapFixed64Uint32":    183,
	"MapFixed64Uint64":    184,
	"MapFixed64Sint32":    185,
	"MapFixed64Sint64":    186,
	"MapFixed64Bool":      187,
	"MapFixed64Fixed32":   188,
	"MapFixed64Fixed64":   189,
	"MapFixed64Sfixed32":  190,
	"MapFixed64Sfixed64":  191,
	"MapFixed64Float":     192,
	"MapFixed64Double":    193,
	"MapFixed64String":    194,
	"MapFixed64Bytes":     195,
	"MapSfixed32Int32":    196,
	"MapSfixed32Int64":    197,
	"MapSfixed32Uint32":   198,
	"MapSfixed32Uint64":   199,
	"MapSfixed32Sint32":   200,
	"MapSfixed32Sint64":   201,
	"MapSfixed32Bool":     202,
	"MapSfixed32Fixed32":  203,
	"MapSfixed32Fixed64":  204,
	"MapSfixed32Sfixed32": 205,
	"MapSfixed32Sfixed64": 206,
	"MapSfixed32Float":    207,
	"MapSfixed32Double":   208,
	"MapSfixed32String":   209,
	"MapSfixed32Bytes":    210,
	"MapSfixed64Int32":    211,
	"MapSfixed64Int64":    212,
	"MapSfixed64Uint32":   213,
	"MapSfixed64Uint64":   214,
	"MapSfixed64Sint32":   215,
	"MapSfixed64Sint64":   216,
	"MapSfixed64Bool":     217,
	"MapSfixed64Fixed32":  218,
	"MapSfixed64Fixed64":  219,
	"MapSfixed64Sfixed32": 220,
	"MapSfixed64Sfixed64": 221,
	"MapSfixed64Float":    222,
	"MapSfixed64Double":   223,
	"MapSfixed64String":   224,
	"MapSfixed64Bytes":    225,
	"MapStringInt32":      226,
	"MapStringInt64":      227,
	"MapStringUint32":     228,
	"MapStringUint64":     229,
	"MapStringSint32":     230,
	"MapStringSint64":     231,
	"MapStringBool":       232,
	"MapStringFixed32":    233,
	"MapStringFixed64":    234,
	"MapStringSfixed32":   235,
	"MapStringSfixed64":   236,
	"MapStringFloat":      237,
	"MapStringDouble":     238,
	"MapStringString":     239,
	"MapStringBytes":      240,
	"Leaf":                241,
	"MapInt32Msg":         242,
	"MapInt64Msg":         243,
	"MapUint32Msg":        244,
	"MapUint64Msg":        245,
	"MapSint32Msg":        246,
	"MapSint64Msg":        247,
	"MapBoolMsg":          248,
	"MapFixed32Msg":       249,
	"MapFixed64Msg":       250,
	"MapSfixed32Msg":      251,
	"MapSfixed64Msg":      252,
	"MapStringMsg":        253,
	"MapInt32Val":         254,
	"MapStringVal":        255,
	"MapFixed64Val":       256,
	"MapBoolVal":          257,
	"Nest":                258,
	"NestVal":             259,
	"Rec":                 260,
	"UnkDirect":           261,
	"UnkOld":              262,
	"UnkPtr":              263,
	"UnkNone":             264,
	"UnkNest":             265,
	"Nums":                266,
	"NumsHigh":            267,
	"OneofA":              268,
	"OneofB":              269,
}

var kinds = []string{"Int32", "Int64", "Uint32", "Uint64", "Sint32", "Sint64", "Bool", "Fixed32", "Fixed64", "Sfixed32", "Sfixed64", "Float", "Double", "String", "Bytes"}

var keyKinds = []string{"Int32", "Int64", "Uint32", "Uint64", "Sint32", "Sint64", "Bool", "Fixed32", "Fixed64", "Sfixed32", "Sfixed64", "String"}

var typeNames = []string{"Scalars", "Opts", "Lists", "Packs", "OneInt32", "OneInt64", "OneUint32", "OneUint64", "OneSint32", "OneSint64", "OneBool", "OneFixed32", "OneFixed64", "OneSfixed32", "OneSfixed64", "OneFloat", "OneDouble", "OneString", "OneBytes", "OptInt32", "OptInt64", "OptUint32", "OptUint64", "OptSint32", "OptSint64", "OptBool", "OptFixed32", "OptFixed64", "OptSfixed32", "OptSfixed64", "OptFloat", "OptDouble", "OptString", "LstInt32", "LstInt64", "LstUint32", "LstUint64", "LstSint32", "LstSint64", "LstBool", "LstFixed32", "LstFixed64", "LstSfixed32", "LstSfixed64", "LstFloat", "LstDouble", "LstString", "LstBytes", "PckInt32", "PckInt64", "PckUint32", "PckUint64", "PckSint32", "PckSint64", "PckBool", "PckFixed32", "PckFixed64", "PckSfixed32", "PckSfixed64", "PckFloat", "PckDouble", "MapInt32Int32", "MapInt32Int64", "MapInt32Uint32", "MapInt32Uint64", "MapInt32Sint32", "MapInt32Sint64", "MapInt32Bool", "MapInt32Fixed32", "MapInt32Fixed64", "MapInt32Sfixed32", "MapInt32Sfixed64", "MapInt32Float", "MapInt32Double", "MapInt32String", "MapInt32Bytes", "MapInt64Int32", "MapInt64Int64", "MapInt64Uint32", "MapInt64Uint64", "MapInt64Sint32", "MapInt64Sint64", "MapInt64Bool", "MapInt64Fixed32", "MapInt64Fixed64", "MapInt64Sfixed32", "MapInt64Sfixed64", "MapInt64Float", "MapInt64Double", "MapInt64String", "MapInt64Bytes", "MapUint32Int32", "MapUint32Int64", "MapUint32Uint32", "MapUint32Uint64", "MapUint32Sint32", "MapUint32Sint64", "MapUint32Bool", "MapUint32Fixed32", "MapUint32Fixed64", "MapUint32Sfixed32", "MapUint32Sfixed64", "MapUint32Float", "MapUint32Double", "MapUint32String", "MapUint32Bytes", "MapUint64Int32", "MapUint64Int64", "MapUint64Uint32", "MapUint64Uint64", "MapUint64Sint32", "MapUint64Sint64", "MapUint64Bool", "MapUint64Fixed32", "MapUint64Fixed64", "MapUint64Sfixed32", "MapUint64Sfixed64", "MapUint64Float", "MapUint64Double", "MapUint64String", "MapUint64Bytes", "MapSint32Int32", "MapSint32Int64", "MapSint32Uint32", "MapSint32Uint64", "MapSint32Sint32", "MapSint32Sint64", "MapSint32Bool", "MapSint32Fixed32", "MapSint32Fixed64", "MapSint32Sfixed32", "MapSint32Sfixed64", "MapSint32Float", "MapSint32Double", "MapSint32String", "MapSint32Bytes", "MapSint64Int32", "MapSint64Int64", "MapSint64Uint32", "MapSint64Uint64", "MapSint64Sint32", "MapSint64Sint64", "MapSint64Bool", "MapSint64Fixed32", "MapSint64Fixed64", "MapSint64Sfixed32", "MapSint64Sfixed64", "MapSint64Float", "MapSint64Double", "MapSint64String", "MapSint64Bytes", "MapBoolInt32", "MapBoolInt64", "MapBoolUint32", "MapBoolUint64", "MapBoolSint32", "MapBoolSint64", "MapBoolBool", "MapBoolFixed32", "MapBoolFixed64", "MapBoolSfixed32", "MapBoolSfixed64", "MapBoolFloat", "MapBoolDouble", "MapBoolString", "MapBoolBytes", "MapFixed32Int32", "MapFixed32Int64", "MapFixed32Uint32", "MapFixed32Uint64", "MapFixed32Sint32", "MapFixed32Sint64", "MapFixed32Bool", "MapFixed32Fixed32", "MapFixed32Fixed64", "MapFixed32Sfixed32", "MapFixed32Sfixed64", "MapFixed32Float", "MapFixed32Double", "MapFixed32String", "MapFixed32Bytes", "MapFixed64Int32", "MapFixed64Int64", "MapFixed64Uint32", "MapFixed64Uint64", "MapFixed64Sint32", "MapFixed64Sint64", "MapFixed64Bool", "MapFixed64Fixed32", "MapFixed64Fixed64", "MapFixed64Sfixed32", "MapFixed64Sfixed64", "MapFixed64Float", "MapFixed64Double", "MapFixed64String", "MapFixed64Bytes", "MapSfixed32Int32", "MapSfixed32Int64", "MapSfixed32Uint32", "MapSfixed32Uint64", "MapSfixed32Sint32", "MapSfixed32Sint64", "MapSfixed32Bool", "MapSfixed32Fixed32", "MapSfixed32Fixed64", "MapSfixed32Sfixed32", "MapSfixed32Sfixed64", "MapSfixed32Float", "MapSfixed32Double", "MapSfixed32String", "MapSfixed32Bytes", "MapSfixed64Int32", "MapSfixed64Int64", "MapSfixed64Uint32", "MapSfixed64Uint64", "MapSfixed64Sint32", "MapSfixed64Sint64", "MapSfixed64Bool", "MapSfixed64Fixed32", "MapSfixed64Fixed64", "MapSfixed64Sfixed32", "MapSfixed64Sfixed64", "MapSfixed64Float", "MapSfixed64Double", "MapSfixed64String", "MapSfixed64Bytes", "MapStringInt32", "MapStringInt64", "MapStringUint32", "MapStringUint64", "MapStringSint32", "MapStringSint64", "MapStringBool", "MapStringFixed32", "MapStringFixed64", "MapStringSfixed32", "MapStringSfixed64", "MapStringFloat", "MapStringDouble", "MapStringString", "MapStringBytes", "Leaf", "MapInt32Msg", "MapInt64Msg", "MapUint32Msg", "MapUint64Msg", "MapSint32Msg", "MapSint64Msg", "MapBoolMsg", "MapFixed32Msg", "MapFixed64Msg", "MapSfixed32Msg", "MapSfixed64Msg", "MapStringMsg", "MapInt32Val", "MapStringVal", "MapFixed64Val", "MapBoolVal", "Nest", "NestVal", "Rec", "UnkDirect", "UnkOld", "UnkPtr", "UnkNone", "UnkNest", "Nums", "NumsHigh", "OneofA", "OneofB"}
