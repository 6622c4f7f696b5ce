// The constructors and types of the library, by name.
pub fn colour(n: &str) -> Option<color_name> {
    pick!(color_name, n, [aliceblue, antiquewhite, antiquewhite1, antiquewhite2, antiquewhite3, antiquewhite4, aqua, aquamarine, aquamarine1, aquamarine2, aquamarine3, aquamarine4, azure, azure1, azure2, azure3, azure4, beige, bisque, bisque1, bisque2, bisque3, bisque4, black, blanchedalmond, blue, blue1, blue2, blue3, blue4, blueviolet, brown, brown1, brown2, brown3, brown4, burlywood, burlywood1, burlywood2, burlywood3, burlywood4, cadetblue, cadetblue1, cadetblue2, cadetblue3, cadetblue4, chartreuse, chartreuse1, chartreuse2, chartreuse3, chartreuse4, chocolate, chocolate1, chocolate2, chocolate3, chocolate4, coral, coral1, coral2, coral3, coral4, cornflowerblue, cornsilk, cornsilk1, cornsilk2, cornsilk3, cornsilk4, crimson, cyan, cyan1, cyan2, cyan3, cyan4, darkblue, darkcyan, darkgoldenrod, darkgoldenrod1, darkgoldenrod2, darkgoldenrod3, darkgoldenrod4, darkgray, darkgreen, darkgrey, darkkhaki, darkmagenta, darkolivegreen, darkolivegreen1, darkolivegreen2, darkolivegreen3, darkolivegreen4, darkorange, darkorange1, darkorange2, darkorange3, darkorange4, darkorchid, darkorchid1, darkorchid2, darkorchid3, darkorchid4, darkred, darksalmon, darkseagreen, darkseagreen1, darkseagreen2, darkseagreen3, darkseagreen4, darkslateblue, darkslategray, darkslategray1, darkslategray2, darkslategray3, darkslategray4, darkslategrey, darkturquoise, darkviolet, deeppink, deeppink1, deeppink2, deeppink3, deeppink4, deepskyblue, deepskyblue1, deepskyblue2, deepskyblue3, deepskyblue4, dimgray, dimgrey, dodgerblue, dodgerblue1, dodgerblue2, dodgerblue3, dodgerblue4, firebrick, firebrick1, firebrick2, firebrick3, firebrick4, floralwhite, forestgreen, fuchsia, gainsboro, ghostwhite, gold, gold1, gold2, gold3, gold4, goldenrod, goldenrod1, goldenrod2, goldenrod3, goldenrod4, gray, gray0, gray1, gray10, gray100, gray11, gray12, gray13, gray14, gray15, gray16, gray17, gray18, gray19, gray2, gray20, gray21, gray22, gray23, gray24, gray25, gray26, gray27, gray28, gray29, gray3, gray30, gray31, gray32, gray33, gray34, gray35, gray36, gray37, gray38, gray39, gray4, gray40, gray41, gray42, gray43, gray44, gray45, gray46, gray47, gray48, gray49, gray5, gray50, gray51, gray52, gray53, gray54, gray55, gray56, gray57, gray58, gray59, gray6, gray60, gray61, gray62, gray63, gray64, gray65, gray66, gray67, gray68, gray69, gray7, gray70, gray71, gray72, gray73, gray74, gray75, gray76, gray77, gray78, gray79, gray8, gray80, gray81, gray82, gray83, gray84, gray85, gray86, gray87, gray88, gray89, gray9, gray90, gray91, gray92, gray93, gray94, gray95, gray96, gray97, gray98, gray99, green, green1, green2, green3, green4, greenyellow, grey, grey0, grey1, grey10, grey100, grey11, grey12, grey13, grey14, grey15, grey16, grey17, grey18, grey19, grey2, grey20, grey21, grey22, grey23, grey24, grey25, grey26, grey27, grey28, grey29, grey3, grey30, grey31, grey32, grey33, grey34, grey35, grey36, grey37, grey38, grey39, grey4, grey40, grey41, grey42, grey43, grey44, grey45, grey46, grey47, grey48, grey49, grey5, grey50, grey51, grey52, grey53, grey54, grey55, grey56, grey57, grey58, grey59, grey6, grey60, grey61, grey62, grey63, grey64, grey65, grey66, grey67, grey68, grey69, grey7, grey70, grey71, grey72, grey73, grey74, grey75, grey76, grey77, grey78, grey79, grey8, grey80, grey81, grey82, grey83, grey84, grey85, grey86, grey87, grey88, grey89, grey9, grey90, grey91, grey92, grey93, grey94, grey95, grey96, grey97, grey98, grey99, honeydew, honeydew1, honeydew2, honeydew3, honeydew4, hotpink, hotpink1, hotpink2, hotpink3, hotpink4, indianred, indianred1, indianred2, indianred3, indianred4, indigo, invis, ivory, ivory1, ivory2, ivory3, ivory4, khaki, khaki1, khaki2, khaki3, khaki4, lavender, lavenderblush, lavenderblush1, lavenderblush2, lavenderblush3, lavenderblush4, lawngreen, lemonchiffon, lemonchiffon1, lemonchiffon2, lemonchiffon3, lemonchiffon4, lightblue, lightblue1, lightblue2, lightblue3, lightblue4, lightcoral, lightcyan, lightcyan1, lightcyan2, lightcyan3, lightcyan4, lightgoldenrod, lightgoldenrod1, lightgoldenrod2, lightgoldenrod3, lightgoldenrod4, lightgoldenrodyellow, lightgray, lightgreen, lightgrey, lightpink, lightpink1, lightpink2, lightpink3, lightpink4, lightsalmon, lightsalmon1, lightsalmon2, lightsalmon3, lightsalmon4, lightseagreen, lightskyblue, lightskyblue1, lightskyblue2, lightskyblue3, lightskyblue4, lightslateblue, lightslategray, lightslategrey, lightsteelblue, lightsteelblue1, lightsteelblue2, lightsteelblue3, lightsteelblue4, lightyellow, lightyellow1, lightyellow2, lightyellow3, lightyellow4, lime, limegreen, linen, magenta, magenta1, magenta2, magenta3, magenta4, maroon, maroon1, maroon2, maroon3, maroon4, mediumaquamarine, mediumblue, mediumorchid, mediumorchid1, mediumorchid2, mediumorchid3, mediumorchid4, mediumpurple, mediumpurple1, mediumpurple2, mediumpurple3, mediumpurple4, mediumseagreen, mediumslateblue, mediumspringgreen, mediumturquoise, mediumvioletred, midnightblue, mintcream, mistyrose, mistyrose1, mistyrose2, mistyrose3, mistyrose4, moccasin, navajowhite, navajowhite1, navajowhite2, navajowhite3, navajowhite4, navy, navyblue, none, oldlace, olive, olivedrab, olivedrab1, olivedrab2, olivedrab3, olivedrab4, orange, orange1, orange2, orange3, orange4, orangered, orangered1, orangered2, orangered3, orangered4, orchid, orchid1, orchid2, orchid3, orchid4, palegoldenrod, palegreen, palegreen1, palegreen2, palegreen3, palegreen4, paleturquoise, paleturquoise1, paleturquoise2, paleturquoise3, paleturquoise4, palevioletred, palevioletred1, palevioletred2, palevioletred3, palevioletred4, papayawhip, peachpuff, peachpuff1, peachpuff2, peachpuff3, peachpuff4, peru, pink, pink1, pink2, pink3, pink4, plum, plum1, plum2, plum3, plum4, powderblue, purple, purple1, purple2, purple3, purple4, rebeccapurple, red, red1, red2, red3, red4, rosybrown, rosybrown1, rosybrown2, rosybrown3, rosybrown4, royalblue, royalblue1, royalblue2, royalblue3, royalblue4, saddlebrown, salmon, salmon1, salmon2, salmon3, salmon4, sandybrown, seagreen, seagreen1, seagreen2, seagreen3, seagreen4, seashell, seashell1, seashell2, seashell3, seashell4, sienna, sienna1, sienna2, sienna3, sienna4, silver, skyblue, skyblue1, skyblue2, skyblue3, skyblue4, slateblue, slateblue1, slateblue2, slateblue3, slateblue4, slategray, slategray1, slategray2, slategray3, slategray4, slategrey, snow, snow1, snow2, snow3, snow4, springgreen, springgreen1, springgreen2, springgreen3, springgreen4, steelblue, steelblue1, steelblue2, steelblue3, steelblue4, tan, tan1, tan2, tan3, tan4, teal, thistle, thistle1, thistle2, thistle3, thistle4, tomato, tomato1, tomato2, tomato3, tomato4, transparent, turquoise, turquoise1, turquoise2, turquoise3, turquoise4, violet, violetred, violetred1, violetred2, violetred3, violetred4, webgray, webgreen, webgrey, webmaroon, webpurple, wheat, wheat1, wheat2, wheat3, wheat4, white, whitesmoke, x11gray, x11green, x11grey, x11maroon, x11purple, yellow, yellow1, yellow2, yellow3, yellow4, yellowgreen])
}
pub fn constructor(group: &str, name: &str, v: &V) -> Option<Attribute> {
    Some(match (group, name) {
        ("Graph", "_background") => GraphAttributes::_background(v.text()),
        ("Node", "area") => NodeAttributes::area(v.parse()),
        ("Subgraph", "area") => SubgraphAttributes::area(v.parse()),
        ("Edge", "arrowsize") => EdgeAttributes::arrowsize(v.parse()),
        ("Graph", "bb") => GraphAttributes::bb(v.text()),
        ("Graph", "center") => GraphAttributes::center(v.parse()),
        ("Graph", "charset") => GraphAttributes::charset(v.text()),
        ("Graph", "class") => GraphAttributes::class(v.text()),
        ("Node", "class") => NodeAttributes::class(v.text()),
        ("Edge", "class") => EdgeAttributes::class(v.text()),
        ("Subgraph", "class") => SubgraphAttributes::class(v.text()),
        ("Graph", "colorscheme") => GraphAttributes::colorscheme(v.text()),
        ("Node", "colorscheme") => NodeAttributes::colorscheme(v.text()),
        ("Edge", "colorscheme") => EdgeAttributes::colorscheme(v.text()),
        ("Subgraph", "colorscheme") => SubgraphAttributes::colorscheme(v.text()),
        ("Graph", "comment") => GraphAttributes::comment(v.text()),
        ("Node", "comment") => NodeAttributes::comment(v.text()),
        ("Edge", "comment") => EdgeAttributes::comment(v.text()),
        ("Graph", "compound") => GraphAttributes::compound(v.parse()),
        ("Graph", "concentrate") => GraphAttributes::concentrate(v.parse()),
        ("Graph", "Damping") => GraphAttributes::Damping(v.parse()),
        ("Edge", "decorate") => EdgeAttributes::decorate(v.parse()),
        ("Graph", "defaultdist") => GraphAttributes::defaultdist(v.parse()),
        ("Edge", "constraint") => EdgeAttributes::constraint(v.parse()),
        ("Graph", "dim") => GraphAttributes::dim(v.parse()),
        ("Graph", "dimen") => GraphAttributes::dimen(v.parse()),
        ("Graph", "diredgeconstraints") => GraphAttributes::diredgeconstraints(v.parse()),
        ("Node", "distortion") => NodeAttributes::distortion(v.parse()),
        ("Graph", "dpi") => GraphAttributes::dpi(v.parse()),
        ("Edge", "dedgehrefpi") => EdgeAttributes::dedgehrefpi(v.text()),
        ("Edge", "edgetarget") => EdgeAttributes::edgetarget(v.text()),
        ("Edge", "edgetooltip") => EdgeAttributes::edgetooltip(v.text()),
        ("Edge", "edgeURL") => EdgeAttributes::edgeURL(v.text()),
        ("Graph", "epsilon") => GraphAttributes::epsilon(v.parse()),
        ("Graph", "esep") => GraphAttributes::esep(v.parse()),
        ("Node", "fixedsize") => NodeAttributes::fixedsize(v.parse()),
        ("Node", "fontname") => NodeAttributes::fontname(v.text()),
        ("Graph", "fontname") => GraphAttributes::fontname(v.text()),
        ("Edge", "fontname") => EdgeAttributes::fontname(v.text()),
        ("Subgraph", "fontname") => SubgraphAttributes::fontname(v.text()),
        ("Node", "href") => NodeAttributes::href(v.text()),
        ("Graph", "href") => GraphAttributes::href(v.text()),
        ("Edge", "href") => EdgeAttributes::href(v.text()),
        ("Subgraph", "href") => SubgraphAttributes::href(v.text()),
        ("Node", "id") => NodeAttributes::id(v.text()),
        ("Graph", "id") => GraphAttributes::id(v.text()),
        ("Edge", "id") => EdgeAttributes::id(v.text()),
        ("Subgraph", "id") => SubgraphAttributes::id(v.text()),
        ("Node", "fontsize") => NodeAttributes::fontsize(v.parse()),
        ("Graph", "fontsize") => GraphAttributes::fontsize(v.parse()),
        ("Edge", "fontsize") => EdgeAttributes::fontsize(v.parse()),
        ("Subgraph", "fontsize") => SubgraphAttributes::fontsize(v.parse()),
        ("Graph", "fontnames") => GraphAttributes::fontnames(v.text()),
        ("Graph", "fontpath") => GraphAttributes::fontpath(v.text()),
        ("Graph", "forcelabels") => GraphAttributes::forcelabels(v.parse()),
        ("Node", "gradientangle") => NodeAttributes::gradientangle(v.parse()),
        ("Graph", "gradientangle") => GraphAttributes::gradientangle(v.parse()),
        ("Subgraph", "gradientangle") => SubgraphAttributes::gradientangle(v.parse()),
        ("Node", "group") => NodeAttributes::group(v.text()),
        ("Edge", "head_lp") => EdgeAttributes::head_lp(v.text()),
        ("Edge", "headclip") => EdgeAttributes::headclip(v.parse()),
        ("Edge", "headhref") => EdgeAttributes::headhref(v.text()),
        ("Edge", "headlabel") => EdgeAttributes::headlabel(v.text()),
        ("Edge", "headtarget") => EdgeAttributes::headtarget(v.text()),
        ("Edge", "headtooltip") => EdgeAttributes::headtooltip(v.text()),
        ("Edge", "headURL") => EdgeAttributes::headURL(v.text()),
        ("Node", "height") => NodeAttributes::height(v.parse()),
        ("Node", "image") => NodeAttributes::image(v.text()),
        ("Node", "imagepos") => NodeAttributes::imagepos(v.text()),
        ("Node", "imagescale") => NodeAttributes::imagescale(v.parse()),
        ("Graph", "imagepath") => GraphAttributes::imagepath(v.text()),
        ("Graph", "inputscale") => GraphAttributes::inputscale(v.parse()),
        ("Graph", "K") => GraphAttributes::K(v.parse()),
        ("Subgraph", "K") => SubgraphAttributes::K(v.parse()),
        ("Node", "label") => NodeAttributes::label(v.text()),
        ("Graph", "label") => GraphAttributes::label(v.text()),
        ("Edge", "label") => EdgeAttributes::label(v.text()),
        ("Subgraph", "label") => SubgraphAttributes::label(v.text()),
        ("Graph", "label_scheme") => GraphAttributes::label_scheme(v.parse()),
        ("Edge", "labelangle") => EdgeAttributes::labelangle(v.parse()),
        ("Edge", "labeldistance") => EdgeAttributes::labeldistance(v.parse()),
        ("Edge", "labelfloat") => EdgeAttributes::labelfloat(v.parse()),
        ("Edge", "labelfontname") => EdgeAttributes::labelfontname(v.text()),
        ("Edge", "labelfontsize") => EdgeAttributes::labelfontsize(v.parse()),
        ("Edge", "labelhref") => EdgeAttributes::labelhref(v.text()),
        ("Graph", "labeljust") => GraphAttributes::labeljust(v.text()),
        ("Subgraph", "labeljust") => SubgraphAttributes::labeljust(v.text()),
        ("Graph", "labelloc") => GraphAttributes::labelloc(v.text()),
        ("Subgraph", "labelloc") => SubgraphAttributes::labelloc(v.text()),
        ("Node", "labelloc") => NodeAttributes::labelloc(v.text()),
        ("Edge", "labeltarget") => EdgeAttributes::labeltarget(v.text()),
        ("Edge", "labeltooltip") => EdgeAttributes::labeltooltip(v.text()),
        ("Edge", "labelURL") => EdgeAttributes::labelURL(v.text()),
        ("Graph", "landscape") => GraphAttributes::landscape(v.parse()),
        ("Edge", "layer") => EdgeAttributes::layer(v.text()),
        ("Node", "layer") => NodeAttributes::layer(v.text()),
        ("Subgraph", "layer") => SubgraphAttributes::layer(v.text()),
        ("Graph", "layerlistsep") => GraphAttributes::layerlistsep(v.text()),
        ("Graph", "layers") => GraphAttributes::layers(v.text()),
        ("Graph", "layerselect") => GraphAttributes::layerselect(v.text()),
        ("Graph", "layersep") => GraphAttributes::layersep(v.text()),
        ("Graph", "layout") => GraphAttributes::layout(v.text()),
        ("Edge", "len") => EdgeAttributes::len(v.parse()),
        ("Graph", "levels") => GraphAttributes::levels(v.parse()),
        ("Graph", "levelsgap") => GraphAttributes::levelsgap(v.parse()),
        ("Edge", "lhead") => EdgeAttributes::lhead(v.text()),
        ("Graph", "lheight") => GraphAttributes::lheight(v.parse()),
        ("Subgraph", "lheight") => SubgraphAttributes::lheight(v.parse()),
        ("Graph", "lwidth") => GraphAttributes::lwidth(v.parse()),
        ("Subgraph", "lwidth") => SubgraphAttributes::lwidth(v.parse()),
        ("Graph", "lp") => GraphAttributes::lp(v.text()),
        ("Subgraph", "lp") => SubgraphAttributes::lp(v.text()),
        ("Edge", "lp") => EdgeAttributes::lp(v.text()),
        ("Graph", "margin") => GraphAttributes::margin(v.parse()),
        ("Subgraph", "margin") => SubgraphAttributes::margin(v.parse()),
        ("Node", "margin") => NodeAttributes::margin(v.parse()),
        ("Edge", "ltail") => EdgeAttributes::ltail(v.text()),
        ("Graph", "maxiter") => GraphAttributes::maxiter(v.parse()),
        ("Graph", "mclimit") => GraphAttributes::mclimit(v.parse()),
        ("Graph", "mindist") => GraphAttributes::mindist(v.parse()),
        ("Edge", "minlen") => EdgeAttributes::minlen(v.parse()),
        ("Graph", "mode") => GraphAttributes::mode(v.text()),
        ("Graph", "model") => GraphAttributes::model(v.text()),
        ("Graph", "mosek") => GraphAttributes::mosek(v.parse()),
        ("Graph", "newrank") => GraphAttributes::newrank(v.parse()),
        ("Graph", "nodesep") => GraphAttributes::nodesep(v.parse()),
        ("Graph", "normalize") => GraphAttributes::normalize(v.parse()),
        ("Graph", "notranslate") => GraphAttributes::notranslate(v.parse()),
        ("Graph", "nslimit") => GraphAttributes::nslimit(v.parse()),
        ("Graph", "nslimit1") => GraphAttributes::nslimit1(v.parse()),
        ("Graph", "ordering") => GraphAttributes::ordering(v.text()),
        ("Node", "ordering") => NodeAttributes::ordering(v.text()),
        ("Graph", "orientation") => GraphAttributes::orientation(v.parse()),
        ("Node", "orientation") => NodeAttributes::orientation(v.parse()),
        ("Graph", "nojustify") => GraphAttributes::nojustify(v.parse()),
        ("Node", "nojustify") => NodeAttributes::nojustify(v.parse()),
        ("Subgraph", "nojustify") => SubgraphAttributes::nojustify(v.parse()),
        ("Edge", "nojustify") => EdgeAttributes::nojustify(v.parse()),
        ("Graph", "overlap") => GraphAttributes::overlap(v.parse()),
        ("Graph", "overlap_shrink") => GraphAttributes::overlap_shrink(v.parse()),
        ("Graph", "pack") => GraphAttributes::pack(v.parse()),
        ("Graph", "overlap_scaling") => GraphAttributes::overlap_scaling(v.parse()),
        ("Graph", "pad") => GraphAttributes::pad(v.parse()),
        ("Graph", "page") => GraphAttributes::page(v.parse()),
        ("Subgraph", "penwidth") => SubgraphAttributes::penwidth(v.parse()),
        ("Node", "penwidth") => NodeAttributes::penwidth(v.parse()),
        ("Edge", "penwidth") => EdgeAttributes::penwidth(v.parse()),
        ("Subgraph", "peripheries") => SubgraphAttributes::peripheries(v.parse()),
        ("Node", "peripheries") => NodeAttributes::peripheries(v.parse()),
        ("Node", "pin") => NodeAttributes::pin(v.parse()),
        ("Node", "pos") => NodeAttributes::pos(v.text()),
        ("Edge", "pos") => EdgeAttributes::pos(v.text()),
        ("Graph", "quantum") => GraphAttributes::quantum(v.parse()),
        ("Graph", "ranksep") => GraphAttributes::ranksep(v.parse()),
        ("Graph", "ratio") => GraphAttributes::ratio(v.parse()),
        ("Node", "rects") => NodeAttributes::rects(v.text()),
        ("Node", "regular") => NodeAttributes::regular(v.parse()),
        ("Graph", "remincross") => GraphAttributes::remincross(v.parse()),
        ("Graph", "repulsiveforce") => GraphAttributes::repulsiveforce(v.parse()),
        ("Graph", "resolution") => GraphAttributes::resolution(v.parse()),
        ("Graph", "root") => GraphAttributes::root(v.text()),
        ("Node", "root") => NodeAttributes::root(v.text()),
        ("Graph", "rotate") => GraphAttributes::rotate(v.parse()),
        ("Graph", "rotation") => GraphAttributes::rotation(v.parse()),
        ("Edge", "samehead") => EdgeAttributes::samehead(v.text()),
        ("Edge", "sametail") => EdgeAttributes::sametail(v.text()),
        ("Node", "samplepoints") => NodeAttributes::samplepoints(v.parse()),
        ("Graph", "searchsize") => GraphAttributes::searchsize(v.parse()),
        ("Graph", "scale") => GraphAttributes::scale(v.parse()),
        ("Graph", "sep") => GraphAttributes::sep(v.parse()),
        ("Node", "shapefile") => NodeAttributes::shapefile(v.text()),
        ("Node", "showboxes") => NodeAttributes::showboxes(v.parse()),
        ("Graph", "showboxes") => GraphAttributes::showboxes(v.parse()),
        ("Edge", "showboxes") => EdgeAttributes::showboxes(v.parse()),
        ("Node", "sides") => NodeAttributes::sides(v.parse()),
        ("Node", "skew") => NodeAttributes::skew(v.parse()),
        ("Graph", "size") => GraphAttributes::size(v.parse()),
        ("Graph", "sortv") => GraphAttributes::sortv(v.parse()),
        ("Subgraph", "sortv") => SubgraphAttributes::sortv(v.parse()),
        ("Node", "sortv") => NodeAttributes::sortv(v.parse()),
        ("Graph", "splines") => GraphAttributes::splines(v.parse()),
        ("Graph", "start") => GraphAttributes::start(v.text()),
        ("Graph", "style") => GraphAttributes::style(v.text()),
        ("Edge", "style") => EdgeAttributes::style(v.text()),
        ("Node", "style") => NodeAttributes::style(v.text()),
        ("Subgraph", "style") => SubgraphAttributes::style(v.text()),
        ("Graph", "stylesheet") => GraphAttributes::stylesheet(v.text()),
        ("Edge", "tail_lp") => EdgeAttributes::tail_lp(v.text()),
        ("Edge", "tailhref") => EdgeAttributes::tailhref(v.text()),
        ("Edge", "taillabel") => EdgeAttributes::taillabel(v.text()),
        ("Edge", "tailtarget") => EdgeAttributes::tailtarget(v.text()),
        ("Edge", "tailtooltip") => EdgeAttributes::tailtooltip(v.text()),
        ("Edge", "tailURL") => EdgeAttributes::tailURL(v.text()),
        ("Edge", "target") => EdgeAttributes::target(v.text()),
        ("Graph", "target") => GraphAttributes::target(v.text()),
        ("Node", "target") => NodeAttributes::target(v.text()),
        ("Subgraph", "target") => SubgraphAttributes::target(v.text()),
        ("Edge", "tooltip") => EdgeAttributes::tooltip(v.text()),
        ("Graph", "tooltip") => GraphAttributes::tooltip(v.text()),
        ("Node", "tooltip") => NodeAttributes::tooltip(v.text()),
        ("Subgraph", "tooltip") => SubgraphAttributes::tooltip(v.text()),
        ("Edge", "URL") => EdgeAttributes::URL(v.text()),
        ("Graph", "URL") => GraphAttributes::URL(v.text()),
        ("Node", "URL") => NodeAttributes::URL(v.text()),
        ("Subgraph", "URL") => SubgraphAttributes::URL(v.text()),
        ("Edge", "tailclip") => EdgeAttributes::tailclip(v.parse()),
        ("Graph", "truecolor") => GraphAttributes::truecolor(v.parse()),
        ("Node", "vertices") => NodeAttributes::vertices(v.text()),
        ("Graph", "viewport") => GraphAttributes::viewport(v.text()),
        ("Graph", "voro_margin") => GraphAttributes::voro_margin(v.parse()),
        ("Edge", "weight") => EdgeAttributes::weight(v.parse()),
        ("Node", "width") => NodeAttributes::width(v.parse()),
        ("Graph", "xdotversion") => GraphAttributes::xdotversion(v.text()),
        ("Edge", "xlabel") => EdgeAttributes::xlabel(v.text()),
        ("Node", "xlabel") => NodeAttributes::xlabel(v.text()),
        ("Edge", "xlp") => EdgeAttributes::xlp(v.text()),
        ("Node", "xlp") => NodeAttributes::xlp(v.text()),
        ("Node", "z") => NodeAttributes::z(v.parse()),
        ("Graph", "bgcolor") => GraphAttributes::bgcolor(colour(&v.text())?),
        ("Subgraph", "bgcolor") => SubgraphAttributes::bgcolor(colour(&v.text())?),
        ("Edge", "color") => EdgeAttributes::color(colour(&v.text())?),
        ("Subgraph", "color") => SubgraphAttributes::color(colour(&v.text())?),
        ("Node", "color") => NodeAttributes::color(colour(&v.text())?),
        ("Edge", "fillcolor") => EdgeAttributes::fillcolor(colour(&v.text())?),
        ("Subgraph", "fillcolor") => SubgraphAttributes::fillcolor(colour(&v.text())?),
        ("Node", "fillcolor") => NodeAttributes::fillcolor(colour(&v.text())?),
        ("Graph", "fontcolor") => GraphAttributes::fontcolor(colour(&v.text())?),
        ("Edge", "fontcolor") => EdgeAttributes::fontcolor(colour(&v.text())?),
        ("Subgraph", "fontcolor") => SubgraphAttributes::fontcolor(colour(&v.text())?),
        ("Node", "fontcolor") => NodeAttributes::fontcolor(colour(&v.text())?),
        ("Edge", "labelfontcolor") => EdgeAttributes::labelfontcolor(colour(&v.text())?),
        ("Subgraph", "pencolor") => SubgraphAttributes::pencolor(colour(&v.text())?),
        ("Edge", "arrowhead") => EdgeAttributes::arrowhead(enum_arrowhead(&v.text())?),
        ("Edge", "arrowtail") => EdgeAttributes::arrowtail(enum_arrowtail(&v.text())?),
        ("Graph", "clusterrank") => GraphAttributes::clusterrank(enum_clusterrank(&v.text())?),
        ("Edge", "dir") => EdgeAttributes::dir(enum_dir(&v.text())?),
        ("Graph", "outputorder") => GraphAttributes::outputorder(enum_outputorder(&v.text())?),
        ("Graph", "packmode") => GraphAttributes::packmode(enum_packmode(&v.text())?),
        ("Graph", "pagedir") => GraphAttributes::pagedir(enum_pagedir(&v.text())?),
        ("Graph", "quadtree") => GraphAttributes::quadtree(enum_quadtree(&v.text())?),
        ("Subgraph", "rank") => SubgraphAttributes::rank(enum_rank(&v.text())?),
        ("Graph", "rankdir") => GraphAttributes::rankdir(enum_rankdir(&v.text())?),
        ("Node", "shape") => NodeAttributes::shape(enum_shape(&v.text())?),
        ("Graph", "smoothing") => GraphAttributes::smoothing(enum_smoothing(&v.text())?),
        _ => return None,
    })
}
fn enum_arrowhead(n: &str) -> Option<arrowhead> {
    pick!(arrowhead, n, [normal, dot, odot, none, empty, diamond, ediamond, odiamond, box_, open, vee, halfopen, obox, crow, invempty, tee, invodot, invdot, inv])
}
fn enum_arrowtail(n: &str) -> Option<arrowtail> {
    pick!(arrowtail, n, [normal, dot, odot, none, empty, diamond, ediamond, odiamond, box_, open, vee, halfopen, obox, crow, invempty, tee, invodot, invdot, inv])
}
fn enum_clusterrank(n: &str) -> Option<clusterrank> {
    pick!(clusterrank, n, [local, global, none])
}
fn enum_dir(n: &str) -> Option<dir> {
    pick!(dir, n, [forward, back, both, none])
}
fn enum_outputorder(n: &str) -> Option<outputorder> {
    pick!(outputorder, n, [breadthfirst, nodesfirst, edgesfirst])
}
fn enum_packmode(n: &str) -> Option<packmode> {
    pick!(packmode, n, [node, clust, graph, array])
}
fn enum_pagedir(n: &str) -> Option<pagedir> {
    pick!(pagedir, n, [BL, BR, TL, TR, RB, RT, LB, LT])
}
fn enum_quadtree(n: &str) -> Option<quadtree> {
    pick!(quadtree, n, [normal, fast, none])
}
fn enum_rank(n: &str) -> Option<rank> {
    pick!(rank, n, [same, min, source, max, sink])
}
fn enum_rankdir(n: &str) -> Option<rankdir> {
    pick!(rankdir, n, [TB, BT, LR, RL])
}
fn enum_shape(n: &str) -> Option<shape> {
    pick!(shape, n, [box_, polygon, ellipse, oval, circle, point, egg, triangle, plaintext, plain, diamond, trapezium, parallelogram, house, pentagon, hexagon, septagon, octagon, doublecircle, doubleoctagon, tripleoctagon, invtriangle, invtrapezium, invhouse, Mdiamond, Msquare, Mcircle, rect, rectangle, square, star, none, underline, cylinder, note, tab, folder, box3d, component, promoter, cds, terminator, utr, primersite, restrictionsite, fivepoverhang, threepoverhang, noverhang, assembly, signature, insulator, ribosite, rnastab, proteasesite, proteinstab, rpromoter, rarrow, larrow, lpromoter])
}
fn enum_smoothing(n: &str) -> Option<smoothing> {
    pick!(smoothing, n, [none, avg_dist, graph_dist, power_dist, rng, spring, triangle])
}
pub fn of_type(name: &str, v: &V) -> Option<Attribute> {
    Some(match name {
        "arrowhead" => enum_arrowhead(&v.text())?.into_attr(),
        "arrowtail" => enum_arrowtail(&v.text())?.into_attr(),
        "clusterrank" => enum_clusterrank(&v.text())?.into_attr(),
        "dir" => enum_dir(&v.text())?.into_attr(),
        "outputorder" => enum_outputorder(&v.text())?.into_attr(),
        "packmode" => enum_packmode(&v.text())?.into_attr(),
        "pagedir" => enum_pagedir(&v.text())?.into_attr(),
        "quadtree" => enum_quadtree(&v.text())?.into_attr(),
        "rank" => enum_rank(&v.text())?.into_attr(),
        "rankdir" => enum_rankdir(&v.text())?.into_attr(),
        "shape" => enum_shape(&v.text())?.into_attr(),
        "smoothing" => enum_smoothing(&v.text())?.into_attr(),
        _ => return None,
    })
}
pub fn default(name: &str) -> Option<Attribute> {
    Some(match name {
        "_background" => _background::default().into_attr(),
        "area" => area::default().into_attr(),
        "arrowsize" => arrowsize::default().into_attr(),
        "center" => center::default().into_attr(),
        "charset" => charset::default().into_attr(),
        "class" => class::default().into_attr(),
        "colorscheme" => colorscheme::default().into_attr(),
        "comment" => comment::default().into_attr(),
        "compound" => compound::default().into_attr(),
        "concentrate" => concentrate::default().into_attr(),
        "Damping" => Damping::default().into_attr(),
        "decorate" => decorate::default().into_attr(),
        "constraint" => constraint::default().into_attr(),
        "dim" => dim::default().into_attr(),
        "dimen" => dimen::default().into_attr(),
        "diredgeconstraints" => diredgeconstraints::default().into_attr(),
        "distortion" => distortion::default().into_attr(),
        "dpi" => dpi::default().into_attr(),
        "esep" => esep::default().into_attr(),
        "fixedsize" => fixedsize::default().into_attr(),
        "fontname" => fontname::default().into_attr(),
        "href" => href::default().into_attr(),
        "id" => id::default().into_attr(),
        "fontsize" => fontsize::default().into_attr(),
        "fontnames" => fontnames::default().into_attr(),
        "fontpath" => fontpath::default().into_attr(),
        "forcelabels" => forcelabels::default().into_attr(),
        "headclip" => headclip::default().into_attr(),
        "headhref" => headhref::default().into_attr(),
        "headlabel" => headlabel::default().into_attr(),
        "headtarget" => headtarget::default().into_attr(),
        "headtooltip" => headtooltip::default().into_attr(),
        "headURL" => headURL::default().into_attr(),
        "height" => height::default().into_attr(),
        "image" => image::default().into_attr(),
        "imagepos" => imagepos::default().into_attr(),
        "imagescale" => imagescale::default().into_attr(),
        "imagepath" => imagepath::default().into_attr(),
        "K" => K::default().into_attr(),
        "label" => label::default().into_attr(),
        "label_scheme" => label_scheme::default().into_attr(),
        "labelangle" => labelangle::default().into_attr(),
        "labeldistance" => labeldistance::default().into_attr(),
        "labelfloat" => labelfloat::default().into_attr(),
        "labelfontname" => labelfontname::default().into_attr(),
        "labelfontsize" => labelfontsize::default().into_attr(),
        "labelhref" => labelhref::default().into_attr(),
        "labeljust" => labeljust::default().into_attr(),
        "landscape" => landscape::default().into_attr(),
        "layerlistsep" => layerlistsep::default().into_attr(),
        "layersep" => layersep::default().into_attr(),
        "levelsgap" => levelsgap::default().into_attr(),
        "mclimit" => mclimit::default().into_attr(),
        "mindist" => mindist::default().into_attr(),
        "minlen" => minlen::default().into_attr(),
        "mode" => mode::default().into_attr(),
        "model" => model::default().into_attr(),
        "mosek" => mosek::default().into_attr(),
        "newrank" => newrank::default().into_attr(),
        "nodesep" => nodesep::default().into_attr(),
        "normalize" => normalize::default().into_attr(),
        "notranslate" => notranslate::default().into_attr(),
        "orientation" => orientation::default().into_attr(),
        "nojustify" => nojustify::default().into_attr(),
        "overlap" => overlap::default().into_attr(),
        "overlap_shrink" => overlap_shrink::default().into_attr(),
        "pack" => pack::default().into_attr(),
        "overlap_scaling" => overlap_scaling::default().into_attr(),
        "pad" => pad::default().into_attr(),
        "penwidth" => penwidth::default().into_attr(),
        "pin" => pin::default().into_attr(),
        "quantum" => quantum::default().into_attr(),
        "ranksep" => ranksep::default().into_attr(),
        "regular" => regular::default().into_attr(),
        "remincross" => remincross::default().into_attr(),
        "repulsiveforce" => repulsiveforce::default().into_attr(),
        "resolution" => resolution::default().into_attr(),
        "rotate" => rotate::default().into_attr(),
        "rotation" => rotation::default().into_attr(),
        "samplepoints" => samplepoints::default().into_attr(),
        "searchsize" => searchsize::default().into_attr(),
        "sep" => sep::default().into_attr(),
        "showboxes" => showboxes::default().into_attr(),
        "sides" => sides::default().into_attr(),
        "skew" => skew::default().into_attr(),
        "sortv" => sortv::default().into_attr(),
        "tailclip" => tailclip::default().into_attr(),
        "voro_margin" => voro_margin::default().into_attr(),
        "weight" => weight::default().into_attr(),
        "width" => width::default().into_attr(),
        "z" => z::default().into_attr(),
        "color" => color::default().into_attr(),
        "labelfontcolor" => labelfontcolor::default().into_attr(),
        "pencolor" => pencolor::default().into_attr(),
        "arrowhead" => arrowhead::default().into_attr(),
        "arrowtail" => arrowtail::default().into_attr(),
        "clusterrank" => clusterrank::default().into_attr(),
        "dir" => dir::default().into_attr(),
        "outputorder" => outputorder::default().into_attr(),
        "packmode" => packmode::default().into_attr(),
        "pagedir" => pagedir::default().into_attr(),
        "quadtree" => quadtree::default().into_attr(),
        "rankdir" => rankdir::default().into_attr(),
        "shape" => shape::default().into_attr(),
        "smoothing" => smoothing::default().into_attr(),
        _ => return None,
    })
}
