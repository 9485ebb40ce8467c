"""Seed inputs and dictionary for the coverage-guided part of C02."""
import solids

MODELS = {
    "cube.stl": solids.stl(solids.box([0, 0, 0], [1, 2, 3])),
    "hole.stl": solids.stl(solids.build({"kind": "plate", "n": 8, "r": 1.0, "c": [0.5, 0.0], "half": 3.0, "h": 1.0})),
    "e.stl": "solid e\nendsolid e\n",
    "bad.stl": "solid e\nfacet normal 0 0 1\n",
}
D = "dim(at=[0,1,0],dir=[1,0,0],from=[0,0,0],to=[1,2,3]);"
A = "angle(apex=[0,0,0],at=[1,0,0],from_dir=[1,0,0],to_dir=[1,1,0]);"
A2 = "angle(apex=[0,0,0],at=[1,0,0],from_point=near([1,0,0]),to_point=[1,1,0],fmt=\"%.2f\");"
H = "at=[2,2,0],dir=[1,0,0],center=[0.5,0,0]"
SCRIPTS = [
    "", "page{}", "page{name=\"a\" \"b\\n\";}", "// c\npage {\n}\n",
    'load m="cube.stl";page{draw m{}}',
    'load m="cube.stl";page{draw m{view="Z-";scale=1:2;@[1,-2.5];' + D + A + "}}",
    'load m="hole.stl";page{draw m{view="Z+";dia(%s);rad(%s,fmt="%%f");}}' % (H, H),
    'load m="hole.stl";page{draw m{view=[0,0];dia(at=near([9,9,9]),dir=[1,1,0],center=center([0,0,0]));}}',
    'load m="hole.stl";page{draw m{view=[30,40.5];dim(at=near(center([0,0,0])),dir=[1,0,0],from=near(near([0,0,0])),to=[1,2,3]);}}',
    'load m="e.stl";load n="cube.stl";page{draw m{' + A2 + '}draw n{' + A2 + '}}page{text["x"]{@[1,2];}}',
    'page{text["a\\n\\\\b()" "c\\"\\\'\\?"]{}text[""]{@[0,0];}}',
    'load m="none.stl";page{draw m{}}', 'load m="bad.stl";page{draw m{}}', 'page{draw zz{view="Q";}}',
    'load m="e.stl";page{draw m{dim(at=[0,0,0],dir=[0,0,0],from=[0,0,0],to=[0,0,0],fmt="%d%%");}}',
    'load m="e.stl";page{draw m{scale=0:0;scale=1.5:2;view=[1,2];foo=1;dim(at="x",dir=[1,2,3],from=nope([1,2,3]));}}',
    'load m="e.stl";load m="e.stl";page{name="x";name="y";name=3;}',
    "page{name=99999999999999999999999999999999999999999999;}", 'page { text["unfinished', "page { /", "load draw=;",
]
DICT = ["load", "page", "draw", "text", "dim", "angle", "dia", "rad", "name", "scale", "view", "at", "dir", "from", "to",
        "apex", "from_dir", "from_point", "to_dir", "to_point", "center", "near", "fmt", "@[", "]", "{", "}", "(", ")", ";", "=",
        ":", "//", "\\\"", "\\\\", "cube.stl", "hole.stl", "e.stl", "X+", "X-", "Y+", "Y-", "Z+", "Z-", "%f", "%.3f", "%d", "%n",
        "%s", "[0,0,0]", "[1,0,0]", "1:2", "0:1", "-1", "99999999999", "340282350000000000000000000000000000000",
        "0.00000000000000000000000000000000000000000001", "near([0,0,0])", "center([0,0,0])",
        "facet normal ", "vertex ", "outer loop", "endloop", "endfacet", "solid", "endsolid", "vertex 0 0 0\\x0a",
        "facet normal 0 0 1\\x0a", "endfacet\\x0a", "\\x0a====\\x0a", "e+5", "1e-5"]
STLS = [MODELS["cube.stl"], MODELS["e.stl"], MODELS["bad.stl"],
        solids.stl(solids.box([0, 0, 0], [1, 2, 3])[:4]),
        solids.stl(solids.build({"kind": "ngon", "n": 3, "r": 1.0, "h": 1.0})), "", "facet normal 0 0 0\nendfacet\n"]
