------------------------------ MODULE Catalogue -----------------------------
(* The attributes the library has types for, with the names, value spellings *)
(* and defaults Graphviz documents for them.                                 *)
(*   fn    name of the constructor and type in the library                   *)
(*   key   Graphviz's name                                                   *)
(*   ty    "text", "num", "int", "bool", "color", or the name of the         *)
(*         enumeration (then see Spellings)                                  *)
(*   own   groups that have the constructor                                  *)
(*   def   default, if there is one, as it is written                        *)
EXTENDS Integers, Sequences

NoDefault == <<>>
Default(v) == <<v>>

Attrs == <<
  [fn |-> "_background", key |-> "_background", ty |-> "text", own |-> {"Graph"}, def |-> Default("<none>")],
  [fn |-> "area", key |-> "area", ty |-> "num", own |-> {"Node", "Subgraph"}, def |-> Default("1")],
  [fn |-> "arrowsize", key |-> "arrowsize", ty |-> "num", own |-> {"Edge"}, def |-> Default("1")],
  [fn |-> "bb", key |-> "bb", ty |-> "text", own |-> {"Graph"}, def |-> NoDefault],
  [fn |-> "center", key |-> "center", ty |-> "bool", own |-> {"Graph"}, def |-> Default("false")],
  [fn |-> "charset", key |-> "charset", ty |-> "text", own |-> {"Graph"}, def |-> Default("\"UTF-8\"")],
  [fn |-> "class", key |-> "class", ty |-> "text", own |-> {"Graph", "Node", "Edge", "Subgraph"}, def |-> Default("\"\"")],
  [fn |-> "colorscheme", key |-> "colorscheme", ty |-> "text", own |-> {"Graph", "Node", "Edge", "Subgraph"}, def |-> Default("\"\"")],
  [fn |-> "comment", key |-> "comment", ty |-> "text", own |-> {"Graph", "Node", "Edge"}, def |-> Default("\"\"")],
  [fn |-> "compound", key |-> "compound", ty |-> "bool", own |-> {"Graph"}, def |-> Default("false")],
  [fn |-> "concentrate", key |-> "concentrate", ty |-> "bool", own |-> {"Graph"}, def |-> Default("false")],
  [fn |-> "Damping", key |-> "Damping", ty |-> "num", own |-> {"Graph"}, def |-> Default("0.99")],
  [fn |-> "decorate", key |-> "decorate", ty |-> "bool", own |-> {"Edge"}, def |-> Default("false")],
  [fn |-> "defaultdist", key |-> "defaultdist", ty |-> "num", own |-> {"Graph"}, def |-> NoDefault],
  [fn |-> "constraint", key |-> "constraint", ty |-> "bool", own |-> {"Edge"}, def |-> Default("true")],
  [fn |-> "dim", key |-> "dim", ty |-> "int", own |-> {"Graph"}, def |-> Default("2")],
  [fn |-> "dimen", key |-> "dimen", ty |-> "int", own |-> {"Graph"}, def |-> Default("2")],
  [fn |-> "diredgeconstraints", key |-> "diredgeconstraints", ty |-> "bool", own |-> {"Graph"}, def |-> Default("false")],
  [fn |-> "distortion", key |-> "distortion", ty |-> "num", own |-> {"Node"}, def |-> Default("0")],
  [fn |-> "dpi", key |-> "dpi", ty |-> "num", own |-> {"Graph"}, def |-> Default("96")],
  [fn |-> "dedgehrefpi", key |-> "edgehref", ty |-> "text", own |-> {"Edge"}, def |-> NoDefault],
  [fn |-> "edgetarget", key |-> "edgetarget", ty |-> "text", own |-> {"Edge"}, def |-> NoDefault],
  [fn |-> "edgetooltip", key |-> "edgetooltip", ty |-> "text", own |-> {"Edge"}, def |-> NoDefault],
  [fn |-> "edgeURL", key |-> "edgeURL", ty |-> "text", own |-> {"Edge"}, def |-> NoDefault],
  [fn |-> "epsilon", key |-> "epsilon", ty |-> "num", own |-> {"Graph"}, def |-> NoDefault],
  [fn |-> "esep", key |-> "esep", ty |-> "num", own |-> {"Graph"}, def |-> Default("3")],
  [fn |-> "fixedsize", key |-> "fixedsize", ty |-> "bool", own |-> {"Node"}, def |-> Default("false")],
  [fn |-> "fontname", key |-> "fontname", ty |-> "text", own |-> {"Node", "Graph", "Edge", "Subgraph"}, def |-> Default("\"Times-Roman\"")],
  [fn |-> "href", key |-> "href", ty |-> "text", own |-> {"Node", "Graph", "Edge", "Subgraph"}, def |-> Default("\"\"")],
  [fn |-> "id", key |-> "id", ty |-> "text", own |-> {"Node", "Graph", "Edge", "Subgraph"}, def |-> Default("\"\"")],
  [fn |-> "fontsize", key |-> "fontsize", ty |-> "num", own |-> {"Node", "Graph", "Edge", "Subgraph"}, def |-> Default("14")],
  [fn |-> "fontnames", key |-> "fontnames", ty |-> "text", own |-> {"Graph"}, def |-> Default("\"\"")],
  [fn |-> "fontpath", key |-> "fontpath", ty |-> "text", own |-> {"Graph"}, def |-> Default("<system-dependent>")],
  [fn |-> "forcelabels", key |-> "forcelabels", ty |-> "bool", own |-> {"Graph"}, def |-> Default("true")],
  [fn |-> "gradientangle", key |-> "gradientangle", ty |-> "int", own |-> {"Node", "Graph", "Subgraph"}, def |-> NoDefault],
  [fn |-> "group", key |-> "group", ty |-> "text", own |-> {"Node"}, def |-> NoDefault],
  [fn |-> "head_lp", key |-> "head_lp", ty |-> "text", own |-> {"Edge"}, def |-> NoDefault],
  [fn |-> "headclip", key |-> "headclip", ty |-> "bool", own |-> {"Edge"}, def |-> Default("true")],
  [fn |-> "headhref", key |-> "headhref", ty |-> "text", own |-> {"Edge"}, def |-> Default("\"\"")],
  [fn |-> "headlabel", key |-> "headlabel", ty |-> "text", own |-> {"Edge"}, def |-> Default("\"\"")],
  [fn |-> "headtarget", key |-> "headtarget", ty |-> "text", own |-> {"Edge"}, def |-> Default("\"\"")],
  [fn |-> "headtooltip", key |-> "headtooltip", ty |-> "text", own |-> {"Edge"}, def |-> Default("\"\"")],
  [fn |-> "headURL", key |-> "headURL", ty |-> "text", own |-> {"Edge"}, def |-> Default("\"\"")],
  [fn |-> "height", key |-> "height", ty |-> "num", own |-> {"Node"}, def |-> Default("0.5")],
  [fn |-> "image", key |-> "image", ty |-> "text", own |-> {"Node"}, def |-> Default("\"\"")],
  [fn |-> "imagepos", key |-> "imagepos", ty |-> "text", own |-> {"Node"}, def |-> Default("mc")],
  [fn |-> "imagescale", key |-> "imagescale", ty |-> "bool", own |-> {"Node"}, def |-> Default("false")],
  [fn |-> "imagepath", key |-> "imagepath", ty |-> "text", own |-> {"Graph"}, def |-> Default("\"\"")],
  [fn |-> "inputscale", key |-> "inputscale", ty |-> "num", own |-> {"Graph"}, def |-> NoDefault],
  [fn |-> "K", key |-> "K", ty |-> "num", own |-> {"Graph", "Subgraph"}, def |-> Default("0.3")],
  [fn |-> "label", key |-> "label", ty |-> "text", own |-> {"Node", "Graph", "Edge", "Subgraph"}, def |-> Default("\"\"")],
  [fn |-> "label_scheme", key |-> "label_scheme", ty |-> "int", own |-> {"Graph"}, def |-> Default("0")],
  [fn |-> "labelangle", key |-> "labelangle", ty |-> "num", own |-> {"Edge"}, def |-> Default("-25")],
  [fn |-> "labeldistance", key |-> "labeldistance", ty |-> "num", own |-> {"Edge"}, def |-> Default("1")],
  [fn |-> "labelfloat", key |-> "labelfloat", ty |-> "bool", own |-> {"Edge"}, def |-> Default("false")],
  [fn |-> "labelfontname", key |-> "labelfontname", ty |-> "text", own |-> {"Edge"}, def |-> Default("\"Times-Roman\"")],
  [fn |-> "labelfontsize", key |-> "labelfontsize", ty |-> "num", own |-> {"Edge"}, def |-> Default("14")],
  [fn |-> "labelhref", key |-> "labelhref", ty |-> "text", own |-> {"Edge"}, def |-> Default("\"\"")],
  [fn |-> "labeljust", key |-> "labeljust", ty |-> "text", own |-> {"Graph", "Subgraph"}, def |-> Default("c")],
  [fn |-> "labelloc", key |-> "labelloc", ty |-> "text", own |-> {"Graph", "Subgraph", "Node"}, def |-> NoDefault],
  [fn |-> "labeltarget", key |-> "labeltarget", ty |-> "text", own |-> {"Edge"}, def |-> NoDefault],
  [fn |-> "labeltooltip", key |-> "labeltooltip", ty |-> "text", own |-> {"Edge"}, def |-> NoDefault],
  [fn |-> "labelURL", key |-> "labelURL", ty |-> "text", own |-> {"Edge"}, def |-> NoDefault],
  [fn |-> "landscape", key |-> "landscape", ty |-> "bool", own |-> {"Graph"}, def |-> Default("false")],
  [fn |-> "layer", key |-> "layer", ty |-> "text", own |-> {"Edge", "Node", "Subgraph"}, def |-> NoDefault],
  [fn |-> "layerlistsep", key |-> "layerlistsep", ty |-> "text", own |-> {"Graph"}, def |-> Default("\",\"")],
  [fn |-> "layers", key |-> "layers", ty |-> "text", own |-> {"Graph"}, def |-> NoDefault],
  [fn |-> "layerselect", key |-> "layerselect", ty |-> "text", own |-> {"Graph"}, def |-> NoDefault],
  [fn |-> "layersep", key |-> "layersep", ty |-> "text", own |-> {"Graph"}, def |-> Default("\":\t \"")],
  [fn |-> "layout", key |-> "layout", ty |-> "text", own |-> {"Graph"}, def |-> NoDefault],
  [fn |-> "len", key |-> "len", ty |-> "num", own |-> {"Edge"}, def |-> NoDefault],
  [fn |-> "levels", key |-> "levels", ty |-> "int", own |-> {"Graph"}, def |-> NoDefault],
  [fn |-> "levelsgap", key |-> "levelsgap", ty |-> "num", own |-> {"Graph"}, def |-> Default("0")],
  [fn |-> "lhead", key |-> "lhead", ty |-> "text", own |-> {"Edge"}, def |-> NoDefault],
  [fn |-> "lheight", key |-> "lheight", ty |-> "num", own |-> {"Graph", "Subgraph"}, def |-> NoDefault],
  [fn |-> "lwidth", key |-> "lwidth", ty |-> "num", own |-> {"Graph", "Subgraph"}, def |-> NoDefault],
  [fn |-> "lp", key |-> "lp", ty |-> "text", own |-> {"Graph", "Subgraph", "Edge"}, def |-> NoDefault],
  [fn |-> "margin", key |-> "margin", ty |-> "num", own |-> {"Graph", "Subgraph", "Node"}, def |-> NoDefault],
  [fn |-> "ltail", key |-> "ltail", ty |-> "text", own |-> {"Edge"}, def |-> NoDefault],
  [fn |-> "maxiter", key |-> "maxiter", ty |-> "int", own |-> {"Graph"}, def |-> NoDefault],
  [fn |-> "mclimit", key |-> "mclimit", ty |-> "num", own |-> {"Graph"}, def |-> Default("1")],
  [fn |-> "mindist", key |-> "mindist", ty |-> "num", own |-> {"Graph"}, def |-> Default("1")],
  [fn |-> "minlen", key |-> "minlen", ty |-> "int", own |-> {"Edge"}, def |-> Default("1")],
  [fn |-> "mode", key |-> "mode", ty |-> "text", own |-> {"Graph"}, def |-> Default("major")],
  [fn |-> "model", key |-> "model", ty |-> "text", own |-> {"Graph"}, def |-> Default("shortpath")],
  [fn |-> "mosek", key |-> "mosek", ty |-> "bool", own |-> {"Graph"}, def |-> Default("false")],
  [fn |-> "newrank", key |-> "newrank", ty |-> "bool", own |-> {"Graph"}, def |-> Default("false")],
  [fn |-> "nodesep", key |-> "nodesep", ty |-> "num", own |-> {"Graph"}, def |-> Default("0.25")],
  [fn |-> "normalize", key |-> "normalize", ty |-> "bool", own |-> {"Graph"}, def |-> Default("false")],
  [fn |-> "notranslate", key |-> "notranslate", ty |-> "bool", own |-> {"Graph"}, def |-> Default("false")],
  [fn |-> "nslimit", key |-> "nslimit", ty |-> "num", own |-> {"Graph"}, def |-> NoDefault],
  [fn |-> "nslimit1", key |-> "nslimit1", ty |-> "num", own |-> {"Graph"}, def |-> NoDefault],
  [fn |-> "ordering", key |-> "ordering", ty |-> "text", own |-> {"Graph", "Node"}, def |-> NoDefault],
  [fn |-> "orientation", key |-> "orientation", ty |-> "num", own |-> {"Graph", "Node"}, def |-> Default("0")],
  [fn |-> "nojustify", key |-> "nojustify", ty |-> "bool", own |-> {"Graph", "Node", "Subgraph", "Edge"}, def |-> Default("false")],
  [fn |-> "overlap", key |-> "overlap", ty |-> "bool", own |-> {"Graph"}, def |-> Default("true")],
  [fn |-> "overlap_shrink", key |-> "overlap_shrink", ty |-> "bool", own |-> {"Graph"}, def |-> Default("true")],
  [fn |-> "pack", key |-> "pack", ty |-> "bool", own |-> {"Graph"}, def |-> Default("false")],
  [fn |-> "overlap_scaling", key |-> "overlap_scaling", ty |-> "num", own |-> {"Graph"}, def |-> Default("-4")],
  [fn |-> "pad", key |-> "pad", ty |-> "num", own |-> {"Graph"}, def |-> Default("0.0555")],
  [fn |-> "page", key |-> "page", ty |-> "num", own |-> {"Graph"}, def |-> NoDefault],
  [fn |-> "penwidth", key |-> "penwidth", ty |-> "num", own |-> {"Subgraph", "Node", "Edge"}, def |-> Default("1")],
  [fn |-> "peripheries", key |-> "peripheries", ty |-> "int", own |-> {"Subgraph", "Node"}, def |-> NoDefault],
  [fn |-> "pin", key |-> "pin", ty |-> "bool", own |-> {"Node"}, def |-> Default("false")],
  [fn |-> "pos", key |-> "pos", ty |-> "text", own |-> {"Node", "Edge"}, def |-> NoDefault],
  [fn |-> "quantum", key |-> "quantum", ty |-> "num", own |-> {"Graph"}, def |-> Default("0")],
  [fn |-> "ranksep", key |-> "ranksep", ty |-> "num", own |-> {"Graph"}, def |-> Default("0.5")],
  [fn |-> "ratio", key |-> "ratio", ty |-> "num", own |-> {"Graph"}, def |-> NoDefault],
  [fn |-> "rects", key |-> "rects", ty |-> "text", own |-> {"Node"}, def |-> NoDefault],
  [fn |-> "regular", key |-> "regular", ty |-> "bool", own |-> {"Node"}, def |-> Default("false")],
  [fn |-> "remincross", key |-> "remincross", ty |-> "bool", own |-> {"Graph"}, def |-> Default("true")],
  [fn |-> "repulsiveforce", key |-> "repulsiveforce", ty |-> "num", own |-> {"Graph"}, def |-> Default("1")],
  [fn |-> "resolution", key |-> "resolution", ty |-> "num", own |-> {"Graph"}, def |-> Default("96")],
  [fn |-> "root", key |-> "root", ty |-> "text", own |-> {"Graph", "Node"}, def |-> NoDefault],
  [fn |-> "rotate", key |-> "rotate", ty |-> "int", own |-> {"Graph"}, def |-> Default("0")],
  [fn |-> "rotation", key |-> "rotation", ty |-> "num", own |-> {"Graph"}, def |-> Default("0")],
  [fn |-> "samehead", key |-> "samehead", ty |-> "text", own |-> {"Edge"}, def |-> NoDefault],
  [fn |-> "sametail", key |-> "sametail", ty |-> "text", own |-> {"Edge"}, def |-> NoDefault],
  [fn |-> "samplepoints", key |-> "samplepoints", ty |-> "int", own |-> {"Node"}, def |-> Default("8")],
  [fn |-> "searchsize", key |-> "searchsize", ty |-> "int", own |-> {"Graph"}, def |-> Default("30")],
  [fn |-> "scale", key |-> "scale", ty |-> "num", own |-> {"Graph"}, def |-> NoDefault],
  [fn |-> "sep", key |-> "sep", ty |-> "num", own |-> {"Graph"}, def |-> Default("4")],
  [fn |-> "shapefile", key |-> "shapefile", ty |-> "text", own |-> {"Node"}, def |-> NoDefault],
  [fn |-> "showboxes", key |-> "showboxes", ty |-> "int", own |-> {"Node", "Graph", "Edge"}, def |-> Default("0")],
  [fn |-> "sides", key |-> "sides", ty |-> "int", own |-> {"Node"}, def |-> Default("4")],
  [fn |-> "skew", key |-> "skew", ty |-> "num", own |-> {"Node"}, def |-> Default("0")],
  [fn |-> "size", key |-> "size", ty |-> "num", own |-> {"Graph"}, def |-> NoDefault],
  [fn |-> "sortv", key |-> "sortv", ty |-> "int", own |-> {"Graph", "Subgraph", "Node"}, def |-> Default("0")],
  [fn |-> "splines", key |-> "splines", ty |-> "bool", own |-> {"Graph"}, def |-> NoDefault],
  [fn |-> "start", key |-> "start", ty |-> "text", own |-> {"Graph"}, def |-> NoDefault],
  [fn |-> "style", key |-> "style", ty |-> "text", own |-> {"Graph", "Edge", "Node", "Subgraph"}, def |-> NoDefault],
  [fn |-> "stylesheet", key |-> "stylesheet", ty |-> "text", own |-> {"Graph"}, def |-> NoDefault],
  [fn |-> "tail_lp", key |-> "tail_lp", ty |-> "text", own |-> {"Edge"}, def |-> NoDefault],
  [fn |-> "tailhref", key |-> "tailhref", ty |-> "text", own |-> {"Edge"}, def |-> NoDefault],
  [fn |-> "taillabel", key |-> "taillabel", ty |-> "text", own |-> {"Edge"}, def |-> NoDefault],
  [fn |-> "tailtarget", key |-> "tailtarget", ty |-> "text", own |-> {"Edge"}, def |-> NoDefault],
  [fn |-> "tailtooltip", key |-> "tailtooltip", ty |-> "text", own |-> {"Edge"}, def |-> NoDefault],
  [fn |-> "tailURL", key |-> "tailURL", ty |-> "text", own |-> {"Edge"}, def |-> NoDefault],
  [fn |-> "target", key |-> "target", ty |-> "text", own |-> {"Edge", "Graph", "Node", "Subgraph"}, def |-> NoDefault],
  [fn |-> "tooltip", key |-> "tooltip", ty |-> "text", own |-> {"Edge", "Graph", "Node", "Subgraph"}, def |-> NoDefault],
  [fn |-> "URL", key |-> "URL", ty |-> "text", own |-> {"Edge", "Graph", "Node", "Subgraph"}, def |-> NoDefault],
  [fn |-> "tailclip", key |-> "tailclip", ty |-> "bool", own |-> {"Edge"}, def |-> Default("true")],
  [fn |-> "truecolor", key |-> "truecolor", ty |-> "bool", own |-> {"Graph"}, def |-> NoDefault],
  [fn |-> "vertices", key |-> "vertices", ty |-> "text", own |-> {"Node"}, def |-> NoDefault],
  [fn |-> "viewport", key |-> "viewport", ty |-> "text", own |-> {"Graph"}, def |-> NoDefault],
  [fn |-> "voro_margin", key |-> "voro_margin", ty |-> "num", own |-> {"Graph"}, def |-> Default("0.05")],
  [fn |-> "weight", key |-> "weight", ty |-> "int", own |-> {"Edge"}, def |-> Default("1")],
  [fn |-> "width", key |-> "width", ty |-> "num", own |-> {"Node"}, def |-> Default("0.75")],
  [fn |-> "xdotversion", key |-> "xdotversion", ty |-> "text", own |-> {"Graph"}, def |-> NoDefault],
  [fn |-> "xlabel", key |-> "xlabel", ty |-> "text", own |-> {"Edge", "Node"}, def |-> NoDefault],
  [fn |-> "xlp", key |-> "xlp", ty |-> "text", own |-> {"Edge", "Node"}, def |-> NoDefault],
  [fn |-> "z", key |-> "z", ty |-> "num", own |-> {"Node"}, def |-> Default("0")],
  [fn |-> "bgcolor", key |-> "bgcolor", ty |-> "color", own |-> {"Graph", "Subgraph"}, def |-> NoDefault],
  [fn |-> "color", key |-> "color", ty |-> "color", own |-> {"Edge", "Subgraph", "Node"}, def |-> Default("black")],
  [fn |-> "fillcolor", key |-> "fillcolor", ty |-> "color", own |-> {"Edge", "Subgraph", "Node"}, def |-> NoDefault],
  [fn |-> "fontcolor", key |-> "fontcolor", ty |-> "color", own |-> {"Graph", "Edge", "Subgraph", "Node"}, def |-> NoDefault],
  [fn |-> "labelfontcolor", key |-> "labelfontcolor", ty |-> "color", own |-> {"Edge"}, def |-> Default("black")],
  [fn |-> "pencolor", key |-> "pencolor", ty |-> "color", own |-> {"Subgraph"}, def |-> Default("black")],
  [fn |-> "arrowhead", key |-> "arrowhead", ty |-> "arrowhead", own |-> {"Edge"}, def |-> Default("normal")],
  [fn |-> "arrowtail", key |-> "arrowtail", ty |-> "arrowtail", own |-> {"Edge"}, def |-> Default("normal")],
  [fn |-> "clusterrank", key |-> "clusterrank", ty |-> "clusterrank", own |-> {"Graph"}, def |-> Default("local")],
  [fn |-> "dir", key |-> "dir", ty |-> "dir", own |-> {"Edge"}, def |-> Default("forward")],
  [fn |-> "outputorder", key |-> "outputorder", ty |-> "outputorder", own |-> {"Graph"}, def |-> Default("breadthfirst")],
  [fn |-> "packmode", key |-> "packmode", ty |-> "packmode", own |-> {"Graph"}, def |-> Default("node")],
  [fn |-> "pagedir", key |-> "pagedir", ty |-> "pagedir", own |-> {"Graph"}, def |-> Default("BL")],
  [fn |-> "quadtree", key |-> "quadtree", ty |-> "quadtree", own |-> {"Graph"}, def |-> Default("normal")],
  [fn |-> "rank", key |-> "rank", ty |-> "rank", own |-> {"Subgraph"}, def |-> NoDefault],
  [fn |-> "rankdir", key |-> "rankdir", ty |-> "rankdir", own |-> {"Graph"}, def |-> Default("TB")],
  [fn |-> "shape", key |-> "shape", ty |-> "shape", own |-> {"Node"}, def |-> Default("ellipse")],
  [fn |-> "smoothing", key |-> "smoothing", ty |-> "smoothing", own |-> {"Graph"}, def |-> Default("none")]>>

Spellings == [
  arrowhead |-> <<
    "normal", "dot", "odot", "none", "empty", "diamond", "ediamond", "odiamond", "box", "open", "vee", "halfopen",
    "obox", "crow", "invempty", "tee", "invodot", "invdot", "inv">>,
  arrowtail |-> <<
    "normal", "dot", "odot", "none", "empty", "diamond", "ediamond", "odiamond", "box", "open", "vee", "halfopen",
    "obox", "crow", "invempty", "tee", "invodot", "invdot", "inv">>,
  clusterrank |-> <<
    "local", "global", "none">>,
  dir |-> <<
    "forward", "back", "both", "none">>,
  outputorder |-> <<
    "breadthfirst", "nodesfirst", "edgesfirst">>,
  packmode |-> <<
    "node", "clust", "graph", "array">>,
  pagedir |-> <<
    "BL", "BR", "TL", "TR", "RB", "RT", "LB", "LT">>,
  quadtree |-> <<
    "normal", "fast", "none">>,
  rank |-> <<
    "same", "min", "source", "max", "sink">>,
  rankdir |-> <<
    "TB", "BT", "LR", "RL">>,
  shape |-> <<
    "box", "polygon", "ellipse", "oval", "circle", "point", "egg", "triangle", "plaintext", "plain", "diamond",
    "trapezium", "parallelogram", "house", "pentagon", "hexagon", "septagon", "octagon", "doublecircle",
    "doubleoctagon", "tripleoctagon", "invtriangle", "invtrapezium", "invhouse", "Mdiamond", "Msquare", "Mcircle",
    "rect", "rectangle", "square", "star", "none", "underline", "cylinder", "note", "tab", "folder", "box3d",
    "component", "promoter", "cds", "terminator", "utr", "primersite", "restrictionsite", "fivepoverhang",
    "threepoverhang", "noverhang", "assembly", "signature", "insulator", "ribosite", "rnastab", "proteasesite",
    "proteinstab", "rpromoter", "rarrow", "larrow", "lpromoter">>,
  smoothing |-> <<
    "none", "avg_dist", "graph_dist", "power_dist", "rng", "spring", "triangle">>]

Colours == <<
  "aliceblue", "antiquewhite", "antiquewhite1", "antiquewhite2", "antiquewhite3", "antiquewhite4", "aqua",
  "aquamarine", "aquamarine1", "aquamarine2", "aquamarine3", "aquamarine4", "azure", "azure1", "azure2", "azure3",
  "azure4", "beige", "bisque", "bisque1", "bisque2", "bisque3", "bisque4", "black", "blanchedalmond", "blue", "blue1",
  "blue2", "blue3", "blue4", "blueviolet", "brown", "brown1", "brown2", "brown3", "brown4", "burlywood", "burlywood1",
  "burlywood2", "burlywood3", "burlywood4", "cadetblue", "cadetblue1", "cadetblue2", "cadetblue3", "cadetblue4",
  "chartreuse", "chartreuse1", "chartreuse2", "chartreuse3", "chartreuse4", "chocolate", "chocolate1", "chocolate2",
  "chocolate3", "chocolate4", "coral", "coral1", "coral2", "coral3", "coral4", "cornflowerblue", "cornsilk",
  "cornsilk1", "cornsilk2", "cornsilk3", "cornsilk4", "crimson", "cyan", "cyan1", "cyan2", "cyan3", "cyan4",
  "darkblue", "darkcyan", "darkgoldenrod", "darkgoldenrod1", "darkgoldenrod2", "darkgoldenrod3", "darkgoldenrod4",
  "darkgray", "darkgreen", "darkgrey", "darkkhaki", "darkmagenta", "darkolivegreen", "darkolivegreen1",
  "darkolivegreen2", "darkolivegreen3", "darkolivegreen4", "darkorange", "darkorange1", "darkorange2", "darkorange3",
  "darkorange4", "darkorchid", "darkorchid1", "darkorchid2", "darkorchid3", "darkorchid4", "darkred", "darksalmon",
  "darkseagreen", "darkseagreen1", "darkseagreen2", "darkseagreen3", "darkseagreen4", "darkslateblue",
  "darkslategray", "darkslategray1", "darkslategray2", "darkslategray3", "darkslategray4", "darkslategrey",
  "darkturquoise", "darkviolet", "deeppink", "deeppink1", "deeppink2", "deeppink3", "deeppink4", "deepskyblue",
  "deepskyblue1", "deepskyblue2", "deepskyblue3", "deepskyblue4", "dimgray", "dimgrey", "dodgerblue", "dodgerblue1",
  "dodgerblue2", "dodgerblue3", "dodgerblue4", "firebrick", "firebrick1", "firebrick2", "firebrick3", "firebrick4",
  "floralwhite", "forestgreen", "fuchsia", "gainsboro", "ghostwhite", "gold", "gold1", "gold2", "gold3", "gold4",
  "goldenrod", "goldenrod1", "goldenrod2", "goldenrod3", "goldenrod4", "gray", "gray0", "gray1", "gray10", "gray100",
  "gray11", "gray12", "gray13", "gray14", "gray15", "gray16", "gray17", "gray18", "gray19", "gray2", "gray20",
  "gray21", "gray22", "gray23", "gray24", "gray25", "gray26", "gray27", "gray28", "gray29", "gray3", "gray30",
  "gray31", "gray32", "gray33", "gray34", "gray35", "gray36", "gray37", "gray38", "gray39", "gray4", "gray40",
  "gray41", "gray42", "gray43", "gray44", "gray45", "gray46", "gray47", "gray48", "gray49", "gray5", "gray50",
  "gray51", "gray52", "gray53", "gray54", "gray55", "gray56", "gray57", "gray58", "gray59", "gray6", "gray60",
  "gray61", "gray62", "gray63", "gray64", "gray65", "gray66", "gray67", "gray68", "gray69", "gray7", "gray70",
  "gray71", "gray72", "gray73", "gray74", "gray75", "gray76", "gray77", "gray78", "gray79", "gray8", "gray80",
  "gray81", "gray82", "gray83", "gray84", "gray85", "gray86", "gray87", "gray88", "gray89", "gray9", "gray90",
  "gray91", "gray92", "gray93", "gray94", "gray95", "gray96", "gray97", "gray98", "gray99", "green", "green1",
  "green2", "green3", "green4", "greenyellow", "grey", "grey0", "grey1", "grey10", "grey100", "grey11", "grey12",
  "grey13", "grey14", "grey15", "grey16", "grey17", "grey18", "grey19", "grey2", "grey20", "grey21", "grey22",
  "grey23", "grey24", "grey25", "grey26", "grey27", "grey28", "grey29", "grey3", "grey30", "grey31", "grey32",
  "grey33", "grey34", "grey35", "grey36", "grey37", "grey38", "grey39", "grey4", "grey40", "grey41", "grey42",
  "grey43", "grey44", "grey45", "grey46", "grey47", "grey48", "grey49", "grey5", "grey50", "grey51", "grey52",
  "grey53", "grey54", "grey55", "grey56", "grey57", "grey58", "grey59", "grey6", "grey60", "grey61", "grey62",
  "grey63", "grey64", "grey65", "grey66", "grey67", "grey68", "grey69", "grey7", "grey70", "grey71", "grey72",
  "grey73", "grey74", "grey75", "grey76", "grey77", "grey78", "grey79", "grey8", "grey80", "grey81", "grey82",
  "grey83", "grey84", "grey85", "grey86", "grey87", "grey88", "grey89", "grey9", "grey90", "grey91", "grey92",
  "grey93", "grey94", "grey95", "grey96", "grey97", "grey98", "grey99", "honeydew", "honeydew1", "honeydew2",
  "honeydew3", "honeydew4", "hotpink", "hotpink1", "hotpink2", "hotpink3", "hotpink4", "indianred", "indianred1",
  "indianred2", "indianred3", "indianred4", "indigo", "invis", "ivory", "ivory1", "ivory2", "ivory3", "ivory4",
  "khaki", "khaki1", "khaki2", "khaki3", "khaki4", "lavender", "lavenderblush", "lavenderblush1", "lavenderblush2",
  "lavenderblush3", "lavenderblush4", "lawngreen", "lemonchiffon", "lemonchiffon1", "lemonchiffon2", "lemonchiffon3",
  "lemonchiffon4", "lightblue", "lightblue1", "lightblue2", "lightblue3", "lightblue4", "lightcoral", "lightcyan",
  "lightcyan1", "lightcyan2", "lightcyan3", "lightcyan4", "lightgoldenrod", "lightgoldenrod1", "lightgoldenrod2",
  "lightgoldenrod3", "lightgoldenrod4", "lightgoldenrodyellow", "lightgray", "lightgreen", "lightgrey", "lightpink",
  "lightpink1", "lightpink2", "lightpink3", "lightpink4", "lightsalmon", "lightsalmon1", "lightsalmon2",
  "lightsalmon3", "lightsalmon4", "lightseagreen", "lightskyblue", "lightskyblue1", "lightskyblue2", "lightskyblue3",
  "lightskyblue4", "lightslateblue", "lightslategray", "lightslategrey", "lightsteelblue", "lightsteelblue1",
  "lightsteelblue2", "lightsteelblue3", "lightsteelblue4", "lightyellow", "lightyellow1", "lightyellow2",
  "lightyellow3", "lightyellow4", "lime", "limegreen", "linen", "magenta", "magenta1", "magenta2", "magenta3",
  "magenta4", "maroon", "maroon1", "maroon2", "maroon3", "maroon4", "mediumaquamarine", "mediumblue", "mediumorchid",
  "mediumorchid1", "mediumorchid2", "mediumorchid3", "mediumorchid4", "mediumpurple", "mediumpurple1",
  "mediumpurple2", "mediumpurple3", "mediumpurple4", "mediumseagreen", "mediumslateblue", "mediumspringgreen",
  "mediumturquoise", "mediumvioletred", "midnightblue", "mintcream", "mistyrose", "mistyrose1", "mistyrose2",
  "mistyrose3", "mistyrose4", "moccasin", "navajowhite", "navajowhite1", "navajowhite2", "navajowhite3",
  "navajowhite4", "navy", "navyblue", "none", "oldlace", "olive", "olivedrab", "olivedrab1", "olivedrab2",
  "olivedrab3", "olivedrab4", "orange", "orange1", "orange2", "orange3", "orange4", "orangered", "orangered1",
  "orangered2", "orangered3", "orangered4", "orchid", "orchid1", "orchid2", "orchid3", "orchid4", "palegoldenrod",
  "palegreen", "palegreen1", "palegreen2", "palegreen3", "palegreen4", "paleturquoise", "paleturquoise1",
  "paleturquoise2", "paleturquoise3", "paleturquoise4", "palevioletred", "palevioletred1", "palevioletred2",
  "palevioletred3", "palevioletred4", "papayawhip", "peachpuff", "peachpuff1", "peachpuff2", "peachpuff3",
  "peachpuff4", "peru", "pink", "pink1", "pink2", "pink3", "pink4", "plum", "plum1", "plum2", "plum3", "plum4",
  "powderblue", "purple", "purple1", "purple2", "purple3", "purple4", "rebeccapurple", "red", "red1", "red2", "red3",
  "red4", "rosybrown", "rosybrown1", "rosybrown2", "rosybrown3", "rosybrown4", "royalblue", "royalblue1",
  "royalblue2", "royalblue3", "royalblue4", "saddlebrown", "salmon", "salmon1", "salmon2", "salmon3", "salmon4",
  "sandybrown", "seagreen", "seagreen1", "seagreen2", "seagreen3", "seagreen4", "seashell", "seashell1", "seashell2",
  "seashell3", "seashell4", "sienna", "sienna1", "sienna2", "sienna3", "sienna4", "silver", "skyblue", "skyblue1",
  "skyblue2", "skyblue3", "skyblue4", "slateblue", "slateblue1", "slateblue2", "slateblue3", "slateblue4",
  "slategray", "slategray1", "slategray2", "slategray3", "slategray4", "slategrey", "snow", "snow1", "snow2", "snow3",
  "snow4", "springgreen", "springgreen1", "springgreen2", "springgreen3", "springgreen4", "steelblue", "steelblue1",
  "steelblue2", "steelblue3", "steelblue4", "tan", "tan1", "tan2", "tan3", "tan4", "teal", "thistle", "thistle1",
  "thistle2", "thistle3", "thistle4", "tomato", "tomato1", "tomato2", "tomato3", "tomato4", "transparent",
  "turquoise", "turquoise1", "turquoise2", "turquoise3", "turquoise4", "violet", "violetred", "violetred1",
  "violetred2", "violetred3", "violetred4", "webgray", "webgreen", "webgrey", "webmaroon", "webpurple", "wheat",
  "wheat1", "wheat2", "wheat3", "wheat4", "white", "whitesmoke", "x11gray", "x11green", "x11grey", "x11maroon",
  "x11purple", "yellow", "yellow1", "yellow2", "yellow3", "yellow4", "yellowgreen">>

(* types of a user that derive the conversion: the key is the type's name, the *)
(* value what is displayed, or the variant without a trailing underscore       *)
Derived == <<
  [fn |-> "my_kind", vals |-> <<"alpha", "Beta", "snake_case", "N1", "x_", "y__", "_z", "__">>,
                     out |-> <<"alpha", "Beta", "snake_case", "N1", "x", "y_", "_z", "_">>],
  [fn |-> "OneOf", vals |-> <<"only">>, out |-> <<"only">>],
  [fn |-> "my_text", vals |-> <<"a b", "", "x_">>, out |-> <<"a b", "", "x_">>],
  [fn |-> "my_num", vals |-> <<"0.5", "-3", "100">>, out |-> <<"0.5", "-3", "100">>],
  [fn |-> "MyInt", vals |-> <<"-9223372036854775808", "0", "7">>, out |-> <<"-9223372036854775808", "0", "7">>],
  [fn |-> "my_flag", vals |-> <<"true", "false">>, out |-> <<"true", "false">>],
  [fn |-> "my_char", vals |-> <<"_", "c">>, out |-> <<"_", "c">>],
  [fn |-> "my_color", vals |-> <<"red", "x11grey">>, out |-> <<"red", "x11grey">>]>>

(* every group has at most one attribute of a name *)
ASSUME \A i, j \in 1..Len(Attrs) : i # j /\ Attrs[i].own \cap Attrs[j].own # {} => Attrs[i].key # Attrs[j].key
(* no spelling is listed twice *)
ASSUME \A e \in DOMAIN Spellings : \A i, j \in 1..Len(Spellings[e]) : Spellings[e][i] = Spellings[e][j] => i = j
ASSUME \A i, j \in 1..Len(Colours) : Colours[i] = Colours[j] => i = j
=============================================================================
