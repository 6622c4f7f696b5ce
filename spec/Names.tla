-------------------------------- MODULE Names -------------------------------
(* The names Graphviz gives its layout engines and output formats, for every *)
(* choice the library offers (left: the variant, right: Graphviz's name).    *)
EXTENDS Integers, Sequences

LayoutName ==
  [Dot |-> "dot", Neato |-> "neato", Twopi |-> "twopi", Circo |-> "circo", Fdp |-> "fdp",
   Asage |-> "osage", Patchwork |-> "patchwork", Sfdp |-> "sfdp"]

FormatName ==
  [Bmp |-> "bmp", Cgimage |-> "cgimage", Canon |-> "canon", Dot |-> "dot", Gv |-> "gv", Xdot |-> "xdot",
   Xdot12 |-> "xdot1.2", Xdot14 |-> "xdot1.4", Eps |-> "eps", Exr |-> "exr", Fig |-> "fig", Gd |-> "gd",
   Gd2 |-> "gd2", Gif |-> "gif", Gtk |-> "gtk", Ico |-> "ico", Cmap |-> "cmap", Ismap |-> "ismap",
   Imap |-> "imap", Cmapx |-> "cmapx", ImapNp |-> "imap_np", CmapxNp |-> "cmapx_np", Jpg |-> "jpg",
   Jpeg |-> "jpeg", Jpe |-> "jpe", Jp2 |-> "jp2", Json |-> "json", Json0 |-> "json0",
   DotJson |-> "dot_json", XdotJson |-> "xdot_json", Pdf |-> "pdf", Pic |-> "pic", Pct |-> "pct",
   Pict |-> "pict", Plain |-> "plain", PlainExt |-> "plain-ext", Png |-> "png", Pov |-> "pov",
   Ps |-> "ps", Ps2 |-> "ps2", Psd |-> "psd", Sgi |-> "sgi", Svg |-> "svg", Svgz |-> "svgz",
   Tga |-> "tga", Tif |-> "tif", Tiff |-> "tiff", Tk |-> "tk", Vml |-> "vml", Vmlz |-> "vmlz",
   Vrml |-> "vrml", Vbmp |-> "wbmp", Webp |-> "webp", Xlib |-> "xlib", X11 |-> "x11"]

Layouts == DOMAIN LayoutName
Formats == DOMAIN FormatName

(* no two choices share a name *)
ASSUME \A a, b \in Layouts : LayoutName[a] = LayoutName[b] => a = b
ASSUME \A a, b \in Formats : FormatName[a] = FormatName[b] => a = b
=============================================================================
