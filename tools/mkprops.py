#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the entries stay readable)."""
import json, os
P = []
S = "stl-to-ps/"
def prop(id, title, statement, over, text, why, files, mech, observe):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": [S + f for f in files],
                          "mechanism": [{"name": n, "where": S + w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})

prop("C01", "A script is accepted exactly when it follows the grammar",
 "A script is parsed successfully if and only if its token sequence is derivable from the script language (loads; pages with properties, draw and text blocks; dim/angle/dia/rad annotations; strings, numbers, points, 2-D locations, whole-number ratios), with keywords, identifiers, numbers, string literals and // comments split by longest match. A script that is not accepted yields an error message that names the script and the line of the first offending token or character, no PostScript and failure.",
 ["inputs", "programs"], "every byte string given as a script: all token sequences, layouts and single-token corruptions of valid scripts",
 "The upstream parser cases are one lexical and one syntax error and a few example scripts; acceptance is a statement about every token sequence.",
 ["lexer.l", "parser.y", "parser.cc"], [("token rules", "lexer.l"), ("grammar", "parser.y"), ("Parse", "parser.cc")],
 ["return value", "stderr", "output stream"])

prop("C02", "No script or model content can crash or hang the tool",
 "Whatever bytes the script and the model files contain, a run ends by itself in success or failure: it never aborts, never throws out, never reads or writes out of bounds, never runs into undefined behaviour. A failing run writes at least one message to standard error and no PostScript; a succeeding one reports no mistake and writes PostScript without any not-a-number or infinite coordinate.",
 ["inputs"], "every byte string as script and as model file (coordinates of ordinary magnitude, files up to tens of kB)",
 "Tests feed a dozen well-formed files; memory safety over all byte strings needs coverage-guided search under sanitizers.",
 ["stl-to-ps.cc", "stl.cc", "ast.cc", "lexer.l", "parser.y", "center.cc", "ps.cc"],
 [("STL reader", "stl.cc"), ("lexer/parser", "lexer.l"), ("visitors", "stl-to-ps.cc")], ["exit status", "sanitizer reports", "stderr", "output"])

prop("C03", "Text reaches the page exactly as written in the script",
 "The characters shown for a text block are exactly those of its string literals: \\n starts a new line, \\\\ \\\" \\' \\? stand for the character itself, every other character including parentheses, backslashes and non-ASCII bytes stands for itself, and adjacent literals are concatenated. Each non-empty line is shown once, 12 points below the line before it with empty lines taking up their space, the first line starting at the page centre offset by 72 points per unit of the block's @ location.",
 ["inputs"], "all string literal contents, splittings into adjacent literals and locations",
 "Tests check a couple of fixed strings; escaping in two languages in a row (script literal, PostScript string) must compose for every byte sequence.",
 ["lexer.l", "parser.y", "ast.cc", "stl-to-ps.cc", "ps.cc"],
 [("NewQuote", "ast.cc"), ("string literal rule", "lexer.l"), ("Text visitor", "stl-to-ps.cc"), ("TextToPs escaping", "ps.cc")], ["strings shown by the PostScript output"])

prop("C04", "Layout, comments and order of properties do not change the drawing",
 "Changing white space, line breaks or comments between tokens, the order of properties inside one block or annotation, the order of load statements relative to each other and to pages, and the names given to models leaves the drawing unchanged.",
 ["inputs", "programs"], "all valid scripts and all such rewritings of them",
 "A relation between pairs of scripts; tests only compare a script with a stored expectation.",
 ["lexer.l", "parser.y", "stl-to-ps.cc"], [("white space and comment rules", "lexer.l"), ("property map", "stl-to-ps.cc")], ["output stream"])

prop("C05", "Output is all or nothing and the exit status tells which",
 "The command exits 0 exactly when the complete document for every page was written to the output file; in every other case (missing option, unreadable script, any error in script or model, any failure to write all of the output) it exits non-zero, prints a message when the script or a model is at fault, and an erroneous script leaves no PostScript in the output file. The bytes in the file on success do not depend on how the file is written or on what the file held before.",
 ["inputs", "configurations", "fault_sequences"], "all scripts, valid or not, and every point at which writing the output can fail",
 "Tests run the command on a few fixed scripts and never make a write fail.",
 ["stl-to-ps-main.cc", "stl-to-ps.cc"], [("main", "stl-to-ps-main.cc"), ("ScriptToPS", "stl-to-ps.cc")], ["exit status", "output file", "stderr"])

prop("C06", "Every mistake is reported, at its own place, and nothing else is",
 "When a script that parses contains several unrelated mistakes in different loads, or in different pages, draws, texts and annotations, one run reports each of them with the script's name and the line of the statement or property at fault (of something given twice, the second). No message points at a line of a statement that is correct. (A drawing whose own properties are at fault may leave the mistakes of its annotations unreported and the reverse, and one statement may report only the first of its mistakes.)",
 ["inputs", "programs"], "all scripts with any number and mix of mistakes in distinct statements",
 "Tests check one mistake at a time and only that the run fails.",
 ["stl-to-ps.cc", "ast.cc", "ast.h"], [("error accumulation", "stl-to-ps.cc"), ("ErrorMessage", "ast.h")], ["stderr"])

prop("C07", "Each statement takes exactly its documented properties",
 "Pages take name; drawings take scale (ratio of positive whole numbers), view (X+ X- Y+ Y- Z+ Z- or a pair of angles) and @; texts take @; dim needs at, dir, from, to; angle needs at, apex and exactly one of from_dir/from_point and of to_dir/to_point; dia and rad need at, dir, center; all annotations optionally take fmt. A statement is accepted if and only if every needed property is there, none is unknown or given twice, and each has the right type (points for geometry, string for name and fmt) and a usable value.",
 ["inputs"], "all combinations of present, absent, duplicated, unknown and wrongly typed properties of every statement kind",
 "The combinations number in the thousands; tests list about forty.",
 ["stl-to-ps.cc"], [("visitors", "stl-to-ps.cc"), ("Flatten/Take", "stl-to-ps.cc")], ["return value", "stderr"])

prop("C08", "Successful output is a valid PostScript program for the right pages",
 "On success the output is a program that a PostScript interpreter runs without error, leaving its stacks balanced, painting exactly one page per page statement in script order, each with page size 792 by 612. Every path is started, built and painted with finite numbers, and every string is closed, whatever names, texts, formats, script file name and --name value were used.",
 ["inputs", "configurations"], "all valid scripts and models, and all flag values",
 "Tests compare text fragments; none interprets the document.",
 ["ps.cc", "stl-to-ps.cc"], [("DocumentHeader/PageHeader/PageFooter", "ps.cc"), ("RenderPages", "stl-to-ps.cc")], ["output run by a PostScript interpreter"])

prop("C09", "A page is the sum of its parts",
 "What a page shows is exactly the union of what each of its draws, texts and annotations shows when it is alone on a page, and a document is exactly the sequence of its pages; no statement changes what another one draws, whatever their order or number.",
 ["inputs", "programs", "histories"], "all sequences of draws, texts, annotations and pages",
 "Interference between statements appears only in particular sequences (a projection or rotation left over from the previous statement); tests use one or two statements.",
 ["stl-to-ps.cc", "stl-to-ps-impl.h"], [("DrawToPage working set", "stl-to-ps-impl.h"), ("GeneratePages", "stl-to-ps.cc")], ["primitives of each page"])

prop("C10", "The same input always gives the same result",
 "Apart from the time stamps (the one in the header comment and, with --timestamp, the one on each page), running the same script with the same models gives byte-identical output, messages and status, in a fresh process and after any number of other runs, successful or failed, in the same process.",
 ["histories", "inputs"], "all histories of library calls in one process before the run",
 "Needs pairs of histories; tests never compare two runs.",
 ["stl-to-ps.cc", "stl.cc", "parser.cc", "ps.cc"], [("ScriptToPS", "stl-to-ps.cc"), ("scanner set-up and tear-down", "parser.cc"), ("function-local statics", "stl.cc")], ["output", "stderr", "return value"])

prop("C11", "Each page carries the border, its title and the requested header",
 "Every page has the border from (5,5) to (787,607) and its name shown right aligned in the lower right corner (text at y=8 ending at x=784 for the 4.8 point wide characters, set off by a line 3 points left of it and one at y=16 up to x=787). The lower left corner, at (7,7), shows the time stamp and/or \"page I of N\" exactly as --timestamp and --number_pages ask (both are on unless switched off), and nothing when both are off.",
 ["inputs", "configurations"], "all page names, page counts and flag settings",
 "Tests check one header with default flags.",
 ["ps.cc", "stl-to-ps.cc"], [("AddHeader", "stl-to-ps.cc"), ("PageHeader", "ps.cc")], ["texts and lines of each page"])

prop("C12", "A text STL file is read exactly or refused",
 "For a text STL file the model has exactly the vertexes of its facets with a non-zero normal, at full double precision, whatever the number notation (sign, decimals, e or E exponents with any sign), indentation with spaces, solid names and number of solids. A file with any other line, a number that is not one, a facet that has not three vertexes, or a facet that is not finished is refused with a message naming the load statement and the model file.",
 ["inputs"], "all files that are text STL, and all single-line corruptions of them",
 "Tests read two files; the reader's behaviour is a statement about every line and number format.",
 ["stl.cc", "stl-to-ps.cc"], [("STLFile::Make", "stl.cc"), ("LoadFiles", "stl-to-ps.cc")], ["vertex set", "measured distances", "return value", "stderr"])

prop("C13", "Models are found in the current directory, then along --load_path",
 "A relative model name is opened from the current directory if it is there and otherwise from the first --load_path directory that has it; an absolute name is opened as it is and never looked up elsewhere. A name that is not found, or a model name that is loaded twice, is reported with the line of its load statement and the run fails; every load is independent of the others.",
 ["inputs", "configurations"], "all load paths, file placements and sets of load statements",
 "Tests use one load path and one missing file.",
 ["stl-to-ps.cc"], [("LoadFiles", "stl-to-ps.cc")], ["which model is drawn", "stderr"])

prop("C14", "A view is a rigid rotation with the documented orientation",
 "view=[a,b] turns the model by a degrees counter-clockwise about its z axis and then by b degrees about the page's x axis; Z+ (the default) is [0,0], Y- is [0,90], X- is [90,90], Y+ is [180,90], X+ is [-90,90] and Z- is [0,180]. Drawing a model in a view gives the same picture, annotations included, as drawing the model and points so rotated in the default view.",
 ["inputs"], "all models, annotation points and angles, negative and beyond a full turn included",
 "Tests check a few matrix products at fixed angles; the relation quantifies over all angles and shapes.",
 ["geo.cc", "geo.h", "ast.cc", "stl-to-ps.cc", "stl.cc"], [("Rotate", "geo.cc"), ("named view matrices", "geo.h"), ("STLFile::Rotate", "stl.cc"), ("GetRotated", "stl-to-ps.cc")], ["drawn segments", "labels"])

prop("C15", "A drawing has the requested scale and place",
 "With scale=a:b one unit of the model measures 72*a/b points on the page, in both directions, and without scale 72 points. With @[x,y] the middle of the bounding box of the projected model is at the page centre offset by 72*(x,y) points, so that changing @ only moves the picture and changing scale only magnifies the model about that point.",
 ["inputs"], "all models, views, ratios and locations",
 "Tests use 1:1 and 1:2 and compare a handful of lines.",
 ["stl-to-ps.cc", "stl.cc"], [("Draw visitor", "stl-to-ps.cc"), ("STLFile::Limits", "stl.cc"), ("AddLines/AddText/AddArcs", "stl-to-ps.cc")], ["drawn segments"])

prop("C16", "Nothing hidden is drawn and nothing is drawn that is not an edge",
 "Every point of every line drawn for a closed solid is, up to rounding, the projection of a point of an outline or feature edge of the solid that no front-facing facet hides from the viewer.",
 ["inputs"], "all closed conforming solids (convex, non-convex, several bodies) and views",
 "Tests use a cube; hidden-line removal fails on particular overlaps, depths and crossing orders.",
 ["stl.cc"], [("ToLines", "stl.cc"), ("EdgeCrosses", "stl.cc"), ("GenerateLines", "stl.cc"), ("CullBackFace", "stl.cc")], ["drawn segments"])

prop("C17", "Everything visible is drawn",
 "Every point of an outline or feature edge of a closed solid that no front-facing facet hides is, up to rounding, covered by a drawn line.",
 ["inputs"], "all closed conforming solids (convex, non-convex, several bodies) and views",
 "As C16; a lost line needs a particular configuration of crossings.",
 ["stl.cc"], [("ToLines", "stl.cc"), ("Index", "stl.cc"), ("GenerateLines", "stl.cc")], ["drawn segments"])

prop("C18", "The drawing depends on the solid, not on how its mesh is written",
 "Reordering facets, rotating or reversing the vertexes of a facet, scaling or rounding the stated normals, splitting the file into several solids or subdividing facets within their plane leaves the drawing unchanged. An edge between two visible facets is drawn exactly when they bend by more than acos(0.98), and an edge with one visible facet is always drawn.",
 ["inputs"], "all meshes, all equivalent ways of writing them, all bend angles",
 "A relation over mesh representations; tests have one representation of each shape.",
 ["stl.cc"], [("Facet", "stl.cc"), ("Index", "stl.cc")], ["drawn segments"])

prop("C19", "A linear dimension states and marks the true distance",
 "The label of dim is the length of to-from measured along dir in model units, independent of scale, view and place, and is centred on the projection of at. The arrow tips are the projections of the feet of from and to on the line through at along dir; extension lines run from 2 points off the measured point to 4 points beyond the foot, and the dimension line joins the feet leaving room for the label or, when the label does not fit, sticks out 10 points on either side.",
 ["inputs"], "all points, directions of any length, scales and views",
 "Tests check a few axis-aligned dimensions; the projection along arbitrary directions is generic arithmetic.",
 ["stl-to-ps.cc"], [("Dim visitor", "stl-to-ps.cc")], ["labels and segments"])

prop("C20", "An angle annotation states and marks the true angle",
 "The label of angle is the angle in degrees (0 to 180) between the two directions in space, followed by \" deg\" and centred on the projection of at. The arc is centred on the projected apex with radius the distance from apex to at, and sweeps counter-clockwise by less than half a turn between the two projected directions; exchanging from and to, or giving a point instead of the direction towards it, does not change label or arc. Each side has an extension line, in space from 2 points of length beyond the point that gives it (the apex, if a direction does) to 4 beyond the distance of at, and where that distance is reached an arrow head starts: two lines that go, in space, 6 points square to the side within the plane of the angle, towards the other side, and 2 points to either end of the side. Directions that coincide on the page are refused.",
 ["inputs"], "all apexes, directions of any length, points, scales and views",
 "Tests check a few right angles.",
 ["stl-to-ps.cc", "geo.h"], [("Angle visitor", "stl-to-ps.cc"), ("Arc", "geo.h")], ["labels, arcs and segments"])

prop("C21", "Diameter and radius annotations state and mark the true circle",
 "When the three vertexes closest on the page to center lie on one circle of vertexes, dia is labelled with its diameter (after a diameter sign) and rad with its radius (after R) in model units, in every view that shows the circle face-on. The arrow tips are on that circle: at its centre plus (and for dia also minus) the radius along dir, a line runs from tip to tip (for rad from the centre to the tip), and from that line a leader leads on to the projection of at, beside which the label stands (its middle at that height, starting no more than one and a half characters to the right). A dir that is a point on the page is refused.",
 ["inputs"], "all circles of vertexes in all models, all center points within them, directions, scales and views",
 "Tests have one model with two holes; failures depend on vertex order, coincident vertexes and view.",
 ["stl-to-ps.cc", "ast.cc", "center.cc"], [("GetCenter", "stl-to-ps.cc"), ("Closest/Between", "ast.cc"), ("FindCircle", "center.cc"), ("RenderDia/RenderRad", "stl-to-ps.cc")], ["labels and segments"])

prop("C22", "near() and center() pick the right point",
 "near(p) stands for the vertex of the visible facets that is closest on the page to p (of p itself, with its depth, if it is one of them); center(p) for the centre of the circle formed by the vertexes around the three closest to p. They nest, work in every view and annotation, and when there is no such point the run fails with a message at their line.",
 ["inputs"], "all models, views and arguments, nested calls included",
 "Tests call them on a few hand-made point sets.",
 ["ast.cc"], [("PointFunc::Near/Center", "ast.cc")], ["labels of dimensions that use them", "stderr"])

prop("C23", "The point-selection helpers agree with their definitions",
 "Selecting the n closest points gives n points (or all there are) none of which is farther than a rejected distinct point, in order of distance and without repeating a place (points exactly as far as each other and within a tenth of that of each other may count as one place); selecting points between two distances gives exactly the points strictly between them in input order; the fitted circle has the given centre and radius whenever the points lie on a circle, independent of their order, position and size.",
 ["inputs"], "all point lists, counts and distances",
 "Tests use a 3 by 3 grid and a few circles.",
 ["ast.cc", "ast.h", "center.cc", "center.h"], [("Closest", "ast.cc"), ("Between", "ast.cc"), ("FindCircle", "center.cc")], ["return values"])

prop("C24", "Parse errors are printed in one fixed form",
 "The parser's error reporter prints exactly one line to standard error per call: \"error FILE:LINE:[BEGIN,END]: MESSAGE\" when the location is on one line and \"error FILE:LINE:BEGIN to LINE:END: MESSAGE\" otherwise, with \"??\" for an absent file name. File name and message appear as given whatever characters they hold (other than NUL), and numbers in full.",
 ["inputs"], "all file names, messages and locations",
 "The only test calls it twice and does not look at what it prints.",
 ["parser_support.cc", "parser_support.h"], [("error", "parser_support.cc")], ["stderr"])

prop("C25", "fmt is one %f conversion and is honoured",
 "For every annotation, fmt is accepted exactly when it has one %f conversion with optional flags, width and precision and otherwise only literal text (with %% for a percent sign); any other conversion, none or several are refused with a message at that property. The label is then what C's printf gives for that format and the measured value, and without fmt three decimals (one for angles).",
 ["inputs"], "all format strings and values",
 "Tests try one good and one bad format per annotation.",
 ["stl-to-ps.cc"], [("ParsedFormat use in each visitor", "stl-to-ps.cc")], ["labels", "stderr"])

prop("C26", "Lines, arcs and texts are written to the page faithfully",
 "Writing lists of lines, arcs and texts produces PostScript that paints exactly those lines, arcs (counter-clockwise from start to end angle) and strings, in order, at their positions to six significant digits; centred text is centred on its position horizontally and vertically, and plain text starts at it.",
 ["inputs"], "all lists of lines, arcs and texts with any characters",
 "Tests compare a few literal outputs.",
 ["ps.cc", "ps.h"], [("LinesToPs/ArcToPs/TextToPs", "ps.cc")], ["output run by a PostScript interpreter"])

prop("C27", "An edge minus its hidden spans is what gets drawn",
 "Given edges and, per edge, hidden spans ordered by where they start, the generated lines for each visible edge cover exactly the part of the edge outside the union of its spans, however the spans overlap, nest or touch; edges beyond the visible count give nothing, and asking to show hidden parts gives whole edges.",
 ["inputs"], "all edges and ordered lists of spans",
 "Tests list a few overlaps.",
 ["stl.cc", "stl.h"], [("GenerateLines", "stl.cc")], ["returned lines"])

prop("C28", "The document says what it was made from, and has one pen and one font",
 "The document opens with comment lines that give what --name says (Name:), the script's name as it was given (Source:) and the time (Time:), line ends within them shown as blanks and everything else as it is. On every page, whatever it and the pages before it show, all lines and arcs are drawn 0.1 points wide and all text is 8 point Courier.",
 ["inputs"], "all documents, names and script names",
 "Tests write one page.",
 ["ps.cc"], [("DocumentHeader", "ps.cc"), ("PageHeader", "ps.cc")], ["comments", "line widths and fonts as interpreted"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
