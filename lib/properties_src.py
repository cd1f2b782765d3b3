import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","A layered image shows its layers composited bottom to top",
 "The colour of a layered image at a point is obtained by starting from full transparency and composing, from the last layer of the list to the first, every visible layer whose bounds contain the point, using that layer's composite mode, its opacity, and the layer's own content at the position relative to the layer's top-left corner; a group is composited on its own first and then treated as one layer. Hidden layers and layers not covering the point contribute nothing, and a point no visible layer covers is fully transparent. When the first layer's colour model is a plain palette, non-dissolve layers are not mixed: a pixel at least half opaque (16-bit alpha of 0x8000 or more) replaces what is below with its fully opaque colour, any other pixel leaves it unchanged.",
 ["inputs","histories"],"every layer tree (order, nesting, offsets, visibility, opacity, modes, palette or not) and every point inside or outside it",
 "The only tests compare decoded layer metadata and single-colour layer pixels; no test ever reads a colour through a stack of two or more layers.",
 ["image.go","layer.go","composite.go","misc.go"],
 [("bottom-to-top loop with visibility and bounds filter","image.go Image.At"),("position relative to layer bounds, opacity scaling","layer.go Layer.At")],
 ["limage.Image.At","limage.Layer.At","limage.Image.Bounds"])

p("C02","Blend modes compute their published per-channel formula",
 "For the separable modes (Multiply, Screen, Overlay, Difference, Addition, Subtract, Darken Only, Lighten Only, Divide, Dodge, Burn, Hard Light, Soft Light, Grain Extract, Grain Merge) each colour channel of the result depends only on the same channel of the two inputs and on the alphas: it is the bottom channel mixed, in proportion to the smaller of the two alphas, with the mode's published formula (GIMP legacy definitions) clamped to the channel range. Every result is within one 16-bit step per arithmetic operation of that formula and never wraps around. At black, white and full opacity it is exact: for example multiplying by white, screening with black, adding black, subtracting black, dividing by white or dodging with black returns the bottom colour unchanged.",
 ["inputs"],"every pair of colours (any colour type) and every separable mode",
 "No test calls Composite; 2^128 input pairs per mode, and rounding or overflow faults sit on single boundary values.",
 ["composite.go","internal/nrgba.go","internal/minmax.go"],
 [("per-mode functions, clamp and blend","composite.go")],["limage.Composite.Composite"])

p("C03","Alpha of a composition follows the mode's alpha rule",
 "Normal (and every mode without a formula of its own; Destination Atop with the roles of the two exchanged) gives alpha 1-(1-a1)(1-a2), colour weighted by coverage, so an opaque top replaces the bottom exactly, a fully transparent top returns the bottom exactly, and a top over nothing returns the top exactly. All other modes except Dissolve keep the bottom's alpha exactly: nothing appears where the bottom is fully transparent, a fully transparent top leaves the bottom unchanged, and Behind returns the bottom unchanged. Stacking never makes an opaque bottom less than fully opaque.",
 ["inputs","histories"],"every mode, every pair of colours, and every sequence of compositions onto one backdrop",
 "No test composes two colours; the statements are universally quantified over alphas and modes.",
 ["composite.go"],[("blend and alpha computation","composite.go compositeNormal, Composite"),("non-separable modes","composite.go compositeHue..compositeValue")],["limage.Composite.Composite"])

p("C04","Dissolve shows the top opaquely with probability its alpha",
 "Composing in Dissolve mode yields, for every evaluation, either exactly the bottom colour or exactly the top colour made fully opaque, never a mixture. The top is never chosen when its alpha is zero and always when it is fully opaque, and otherwise is chosen with a frequency equal to its alpha, independently of the bottom's alpha.",
 ["inputs","histories"],"every pair of colours and every outcome of the random choice",
 "A randomised operation with no test at all; a sample cannot exclude a mixed or wrongly weighted outcome.",
 ["composite.go"],[("random threshold against alpha","composite.go compositeDissolve")],["limage.Composite.Composite"])

p("C05","HSV and HSL conversions are faithful",
 "Converting any colour to HSV or HSL yields its true value (maximum), lightness (mean of maximum and minimum), saturation and hue to within 16-bit rounding, with zero saturation and hue for greys and alpha preserved exactly, and converting back reproduces the original colour to within 16 of 65535 steps per channel. Converting any HSV or HSL value, including the extreme hues 0 and 65535, to RGB gives the colour defined by the standard hexcone formulas to within that tolerance, without wrap-around. The hue, saturation, colour, value and luminosity modes mix the bottom (in proportion to the smaller alpha) with the colour that takes the named components from the top and the remaining ones from the bottom; a grey top in Hue mode leaves the bottom unchanged.",
 ["inputs"],"every 16-bit RGB colour, every HSV/HSL quadruple, every pair of colours for the component modes",
 "lcolor has no tests; sector boundaries and ties of the maximum are a measure-zero part of the input space.",
 ["lcolor/hsl.go","composite.go"],[("RGB to HSV/HSL","lcolor/hsl.go RGBToHSV, RGBToHSL, colourToHue"),("HSV/HSL to RGB","lcolor/hsl.go ToNRGBA, hcmaToColour"),("component modes","composite.go compositeHue, compositeSaturation, compositeColor, compositeValue")],
 ["lcolor.RGBToHSV","lcolor.RGBToHSL","lcolor.HSVA.RGBA/ToNRGBA","lcolor.HSLA.RGBA/ToNRGBA","limage.Composite.Composite"])

p("C06","Colour types and models honour the image/color contract",
 "Every colour type reports alpha-premultiplied 16-bit components (none above alpha; full alpha for RGB) that agree, to within one step, with its non-premultiplied form, replicating 8-bit values exactly (0 to 0, 255 to 65535). Converting a colour with a model is idempotent and returns a colour that already belongs to the model unchanged; the gray-alpha model keeps the alpha and the luminance of the non-premultiplied colour. The alpha palette chooses the entry nearest to the colour disregarding transparency, returns exactly that entry's colour, and keeps the colour's own alpha.",
 ["inputs"],"every colour of every colour type the packages define or accept, every palette",
 "lcolor has no tests; the decoder tests only see opaque single-colour pixels.",
 ["lcolor/gray.go","lcolor/rgb.go","lcolor/indexed.go","lcolor/models.go","lcolor/hsl.go","internal/nrgba.go"],
 [("RGBA/ToNRGBA methods and model functions","lcolor/*.go"),("ColourToNRGBA","internal/nrgba.go")],
 ["lcolor.GrayAlphaModel","lcolor.RGBModel","lcolor.AlphaPalette.Convert/Index","RGBA() of lcolor types"])

p("C07","Pixel images behave as a bounded array of pixels",
 "For the RGB, gray-alpha and paletted-alpha images with any bounds (including negative or offset ones), reading a pixel returns the value last stored at exactly those coordinates, converted by the image's colour model, and the zero value if none was stored. Storing a pixel affects no other pixel, storing outside the bounds changes nothing, reading outside the bounds returns the zero value, and neither ever panics. Storing back what was read leaves the image unchanged.",
 ["histories","inputs"],"every sequence of stores and loads through any accessor, at any coordinates, for any bounds",
 "No test creates or writes these images except the decoder at offset (0,0).",
 ["rgb.go","grayalpha.go","indexedalpha.go"],[("bounds guard and PixOffset","rgb.go, grayalpha.go, indexedalpha.go")],
 ["NewRGB/NewGrayAlpha/NewPalettedAlpha, At, Set, RGBAt, SetRGB, GrayAlphaAt, SetGrayAlpha, IndexAlphaAt, SetIndexAlpha, Bounds, PixOffset"])

p("C08","Sub-images of pixel images are exact shared views; Opaque is exact",
 "A sub-image of an RGB, gray-alpha or paletted-alpha image has as bounds the intersection of the request with the parent's bounds, shows at every point in those bounds the parent's current pixel at the same coordinates, and shares storage: a store through any view is seen by every view containing that point and by no other point. Nested sub-images compose, and a disjoint request yields an empty image. Opaque reports true exactly when every pixel inside the image's own bounds has full alpha.",
 ["histories","inputs"],"every sequence of sub-image, store and load operations over a family of views",
 "No test calls SubImage or Opaque.",
 ["rgb.go","grayalpha.go","indexedalpha.go"],[("SubImage reslicing with stride; Opaque scan","rgb.go, grayalpha.go, indexedalpha.go")],
 ["SubImage, Opaque, Bounds, At"])

p("C09","Sub-images of layers and layered images show the same picture",
 "Taking a sub-image of a layer or of a layered image for a rectangle yields a picture whose bounds are the intersection of the rectangle with the original's bounds (per layer), and whose colour at every point of the rectangle is the colour the original has at that same point. This holds for nested groups, masked layers, text layers and repeated sub-images, leaves the original unchanged, and keeps name, mode, visibility and opacity of every layer.",
 ["inputs","histories"],"every layer tree and every chain of sub-image rectangles (overlapping, containing, disjoint)",
 "No test takes a sub-image of a layer or layered image.",
 ["layer.go","image.go"],[("SubImageLayer bounds/position handling","layer.go"),("SubImage over all layers","image.go")],
 ["limage.Layer.SubImage/SubImageLayer","limage.Image.SubImage"])

p("C10","Masks and opacity scale alpha and nothing else",
 "A masked image shows at every point the underlying colour with its alpha multiplied by the mask's value at the same point, and a layer shows its content with alpha multiplied by its opacity: fully opaque (mask 255, transparency 0) returns the underlying colour unchanged, zero coverage gives full transparency, and anything between scales alpha proportionally (to within one 16-bit step) without changing the non-premultiplied colour. Points outside the mask are fully transparent. The flattened text of text data is the concatenation of its pieces in order.",
 ["inputs"],"every colour, mask value, transparency value and point",
 "No test reads a masked or partly transparent layer.",
 ["misc.go","layer.go"],[("transparency scaling","misc.go transparency"),("mask lookup","misc.go MaskedImage.At")],
 ["limage.MaskedImage.At","limage.Layer.At","limage.TextData.String"])

p("C11","An image saved as OpenRaster and reloaded is the same image",
 "For every image with non-empty layers (each layer's content starting at its own origin and filling its bounds) that can be written as an OpenRaster file, decoding what was encoded gives the same layer tree: same nesting and order, and for every layer the same name, position relative to its parent, visibility, transparency, composite mode (for the modes OpenRaster has a name for; other modes become Normal), and the same pixels at 8 or 16 bit depth. Images whose bounds do not start at (0,0) come back translated to the origin, a single layer comes back as the one-layer image holding it, and a plain image as a one-layer image with the same picture. Re-encoding a decoded file changes nothing more.",
 ["inputs","programs"],"every layer tree: any depth, any number of layers, any attribute combination, any supported pixel format",
 "The round-trip test covers five fixed trees of opaque, unnamed-attribute layers at full opacity in Normal mode, and cannot even be compiled in this environment.",
 ["ora/encode.go","ora/decode.go","ora/stack.go"],
 [("layer tree traversal twice with a shared running number","ora/encode.go writeLayers, writeStack"),("attribute writing","ora/encode.go writeStack"),("attribute reading and tree building","ora/stack.go")],
 ["ora.Encode","ora.Decode"])

p("C12","An encoded OpenRaster archive is complete and self-consistent",
 "Every archive the encoder completes without error is a zip file whose first entry is an uncompressed mimetype of exactly image/openraster, whose stack document has the image's width and height and one root stack, and in which every layer names a source file that exists exactly once and holds that layer's own pixels as PNG. It contains a merged image equal in size and colours to the composited picture, and a non-empty PNG thumbnail no larger than 256 by 256 that shows the whole picture scaled with its aspect ratio kept (unscaled when it already fits).",
 ["inputs"],"every encodable image, in particular sizes around and above 256 pixels and extreme aspect ratios, and any tree shape",
 "The encode test (not compilable here) only decodes what it encoded, which never looks at the merged image, the thumbnail or the mimetype's storage.",
 ["ora/encode.go","ora/thumbnail.go"],[("entry order and header","ora/encode.go Encode"),("thumbnail scaling","ora/thumbnail.go")],
 ["bytes written by ora.Encode"])

p("C13","Decoding an OpenRaster stack document follows its structure",
 "Decoding a valid archive yields one layer per layer or nested stack element, in document order with the document's nesting, skipping unknown elements (with everything inside them) wherever they occur, and unknown attributes. Each attribute is interpreted independently of attribute order with its default when absent: name, x/y offset relative to the enclosing stack, opacity as the complement of transparency (rounded to the nearest of 256 levels, clamped to 0..1), visibility hidden, composite-op by its OpenRaster name, src as an archive entry. A layer extending beyond the canvas keeps only its part inside the canvas, in its correct place.",
 ["programs","inputs"],"every well-formed stack document and archive",
 "Tests decode five small files; none has unknown elements, offsets inside groups, opacity, hidden layers or layers crossing the canvas edge.",
 ["ora/decode.go","ora/stack.go"],[("token loop, skipTag","ora/stack.go readStack, skipTag"),("attribute switch","ora/stack.go processLayerAttrs"),("clipping","ora/stack.go readLayer")],
 ["ora.Decode","ora.DecodeConfig"])

p("C14","Malformed OpenRaster input is rejected cleanly and consistently",
 "For any zip archive, decoding either returns an image or an error, never both, and never panics or hangs: a missing stack document, a present but wrong mimetype, a stack document without a leading image element having integer width and height, a layer without a readable source, an unparsable number, or a truncated or mis-nested document is an error. Reading only the configuration succeeds whenever decoding does and reports the canvas size stated in the document; it fails whenever the mimetype, stack document or its image element is unacceptable.",
 ["inputs","fault_sequences"],"every zip archive and every way of corrupting a valid one",
 "No test feeds a malformed archive.",
 ["ora/decode.go","ora/stack.go"],[("archive checks","ora/decode.go getStack, checkMime"),("dimension parsing","ora/decode.go getDimensions"),("error propagation","ora/stack.go")],
 ["ora.Decode","ora.DecodeConfig"])

p("C15","OpenRaster encoding reports every write failure",
 "If the destination writer fails at any point of the output, including while the archive is being finished, encoding returns a non-nil error; it returns nil only if every byte of a complete, readable archive was accepted by the writer. An image content that cannot be written, such as one without any pixels, is likewise reported and never produces a nil error.",
 ["fault_sequences","crash_points"],"every position at which the writer can start failing, for any image",
 "No test uses a failing writer.",
 ["ora/encode.go"],[("error chain and archive close","ora/encode.go Encode")],["ora.Encode return value and writer calls"])

p("C16","An image saved as XCF and reloaded is the same image",
 "For every layered image (each layer's content starting at its own origin and filling its bounds) decoding what was encoded gives the same layer tree: same nesting and order, and for every layer the same name, position relative to its parent, visibility, transparency, mask, pixels at 8-bit depth in the file's colour space, and, for RGB files, composite mode (for modes XCF has a code for; the bottom-most top-level layer's becomes Normal unless it is Dissolve). Images whose bounds do not start at (0,0) come back translated to the origin, a single layer comes back as the one-layer image holding it, and a plain image as a one-layer image with the same picture. Grayscale and paletted pictures keep gray values, palette colours and alpha.",
 ["inputs","programs"],"every layer tree, size (including non-multiples of the 64-pixel tile), pixel content and attribute combination",
 "The xcf tests (not compilable here) round-trip five fixed single-colour trees and a few single-layer random images.",
 ["xcf/encoder.go","xcf/layer_encode.go","xcf/image_encode.go","xcf/writer.go","xcf/decoder.go","xcf/layer_decode.go","xcf/image_decode.go"],
 [("pointer reservation and back-filling","xcf/writer.go"),("tiling","xcf/image_encode.go WriteImage"),("property writing","xcf/layer_encode.go"),("property reading","xcf/layer_decode.go")],
 ["xcf.Encode","xcf.Decode"])

p("C17","XCF run-length coding is lossless and strict",
 "Every tile channel the encoder writes is a run-length stream that decodes to exactly the original bytes, whatever the run structure and length, and the decoder reproduces exactly the bytes denoted by any valid stream, in any mix of short and long runs and literals. A stream that is truncated, or whose operations overrun the tile, makes decoding fail with an error rather than yield a picture (operations of no length may be refused).",
 ["inputs"],"every byte sequence of up to a tile's size and every valid or invalid operation sequence",
 "TestReads/TestWrites (not compilable here) check about twenty fixed strings.",
 ["xcf/rle.go"],[("run/literal state machine","xcf/rle.go WriteRLE, WriteRLEData"),("decoder state machine","xcf/rle.go rle.Read")],
 ["bytes written by xcf.Encode","xcf.Decode on crafted files"])

p("C18","Deferred XCF decoding shows the same pixels as eager decoding",
 "For every XCF file, decoding with deferred decompression succeeds or fails exactly as ordinary decoding does, and yields the same layer tree with the same bounds and, at every point in any order of access, the same colour; points outside a layer read the same in both.",
 ["inputs","histories"],"every file (all colour modes, sizes, masks, groups) and every order of pixel accesses across tiles",
 "The single comparison test (not compilable here) covers one-layer RGBA images read in raster order.",
 ["xcf/compressed.go","xcf/image_decode.go","xcf/rle.go"],[("tile cache","xcf/compressed.go decompressTile"),("raw stream capture","xcf/rle.go readRLE")],
 ["xcf.DecodeCompressed","xcf.Decode","At of the returned layers"],
 state=[("tile","index of the decompressed tile","xcf/compressed.go"),("decompressed","its channel bytes","xcf/compressed.go")])

p("C19","XCF files of every supported version decode according to the format",
 "Files of versions 0 to 3, 4 to 10 and 11 to 13 (32-bit or 64-bit pointers, with or without a precision field) in RGB, grayscale and indexed mode decode to the layers, names, offsets, opacity, visibility, modes and pixels they state, wherever in the file their parts are placed; top-level layers are clipped to the canvas, and gray and indexed files know no modes but Normal, Dissolve and Behind. Well-formed image and layer properties that do not affect the picture, and unknown ones of any content, are skipped by their stated length in any order and combination. Reading only the configuration reports the file's width, height and colour model (with its palette for indexed files) for every version.",
 ["inputs","configurations"],"every version, colour mode, alpha/no alpha, property sequence and file layout",
 "The xcf tests (not compilable here) decode five version-0-to-3 RGB files.",
 ["xcf/decoder.go","xcf/layer_decode.go","xcf/skip.go","xcf/reader.go"],[("header and mode","xcf/decoder.go readHeader"),("property loops","xcf/decoder.go readImageProperties, xcf/layer_decode.go readProperties"),("pointer width","readLayerPointer(s)")],
 ["xcf.Decode","xcf.DecodeConfig"])

p("C20","XCF layer groups are rebuilt exactly",
 "Decoding attaches every layer to the group named by its item path, keeping file order within each group, with its position relative to that group's position, for any depth and number of groups, and the result does not depend on goroutine scheduling or map order. A layer whose path names no preceding group is an error. A layer without an alpha channel is accepted only as the last layer of the file, and the bottom-most top-level layer's mode is forced to Normal unless it is Normal or Dissolve.",
 ["inputs","schedules"],"every forest of layers, every item path assignment valid or not, every schedule of the per-layer decoders",
 "One decode test (not compilable here) has one group of two layers.",
 ["xcf/decoder.go"],[("group map keyed by path","xcf/decoder.go makeGroups"),("parent back-patching","xcf/decoder.go makeImage"),("one goroutine per layer","xcf/decoder.go readLayers")],
 ["xcf.Decode"])

p("C21","Malformed XCF input never crashes or hangs the decoder",
 "For any byte sequence, however truncated, bit-flipped, or hostile in its lengths, counts and pointers, decoding (eager, deferred or configuration only) returns either an image or an error within time and memory bounded by a small multiple of what the file's own size, stated dimensions and number of layers justify; it never panics, also not in a background goroutine, and never loops on a stated count after the data has run out. A file cut short anywhere inside data the picture needs is an error, not a partial picture.",
 ["inputs","fault_sequences"],"every byte sequence, in particular every truncation and field corruption of valid files",
 "No test feeds a malformed file.",
 ["xcf/decoder.go","xcf/layer_decode.go","xcf/image_decode.go","xcf/channel.go","xcf/parasites.go","xcf/skip.go","xcf/text.go","xcf/rle.go"],
 [("sticky error reader","xcf/reader.go"),("validation of lengths and types","xcf/*.go")],["xcf.Decode","xcf.DecodeCompressed","xcf.DecodeConfig"])

p("C22","XCF encoding reports every write failure",
 "If the destination fails on any write, sequential or back-filled pointer, encoding returns that failure as a non-nil error and issues no further data that pretends success; it returns nil only if every write was accepted. On success every byte of the file from start to end has been written and every pointer refers inside the file.",
 ["fault_sequences","crash_points"],"every index of the failing write call, for any image",
 "No test uses a failing destination.",
 ["xcf/writer.go","xcf/encoder.go"],[("sticky error shared by sequential and pointer writers","xcf/writer.go")],["xcf.Encode return value and WriteAt calls"])

p("C23","Reader adaptation gives correct, concurrent, deadlock-free positional reads",
 "Adapting any reader that can read at a position or seek yields a positional reader that returns exactly the source's bytes at the requested offset, wherever the source's cursor was when it was adapted, whether or not it was buffered or partly consumed, and even if the source returns short reads. It reports an error whenever it returns fewer bytes than asked for and only then (a read of no bytes may report a failing source), and concurrent reads neither corrupt each other nor deadlock, also after a seek or read has failed. A reader offering neither ability is refused.",
 ["schedules","histories","fault_sequences"],"every interleaving of concurrent positional reads, every short-read pattern and every failing seek or read",
 "No test exercises the adapter at all.",
 ["internal/bufioToReader.go"],[("mutex-protected seek and read with cached position","internal/bufioToReader.go readerAt.ReadAt"),("dispatch on reader kind","internal/bufioToReader.go GetReaderAt, bufioToReader")],
 ["internal.GetReaderAt","image.Decode on XCF data"],
 state=[("pos","where the adapter believes the source's cursor is","internal/bufioToReader.go")])

p("C24","XCF text layers keep their text",
 "A text layer encoded to XCF and decoded again yields the same text: the same flattened string and, per character, the same font, size, (opaque) colour, background colour, bold, italic, underline, strikethrough, letter spacing and rise, for any printable text including quotes, backslashes, markup characters, non-ASCII characters and newlines. Malformed text descriptions are an error and never a crash.",
 ["inputs"],"every list of styled text pieces and every text parasite content",
 "One decode test (not compilable here) reads one fixed three-piece text.",
 ["xcf/text.go","xcf/parasites.go"],[("text writer and quoting","xcf/text.go WriteText, writeTextMarkup"),("parasite tokeniser and markup parser","xcf/parasites.go, xcf/text.go")],
 ["xcf.Encode","xcf.Decode"])

p("C25","Decoded images can be read concurrently",
 "Images returned by the decoders may be read by any number of goroutines at once: every read returns the colour a single-threaded reader would see, without data races. This includes images whose tiles are decompressed on demand.",
 ["schedules"],"every interleaving of concurrent At calls over any set of layers and points",
 "No test reads an image from more than one goroutine.",
 ["xcf/compressed.go","image.go","layer.go"],[("on-demand tile decompression into a per-image cache","xcf/compressed.go decompressTile")],
 ["At on layers from xcf.Decode, xcf.DecodeCompressed, ora.Decode"],
 state=[("tile, decompressed","shared one-tile cache","xcf/compressed.go")])
p("C26","Cropping, saving and converting in any order keep what pictures hold",
 "A picture that is cropped, saved as OpenRaster or XCF and read again (at once or on demand), in any order and any number of times, still shows what the original showed within what is left of it: every layer keeps its name, order, nesting, visibility and opacity, a mode both formats know, its place relative to the others, and its pixels within the cropped part (exactly where the colours fit the file, else to within the rounding of its depth); masks and texts survive XCF and are drawn into the layer's own pixels in OpenRaster. What has been cropped away never reappears in a saved file, and what lies outside of a layer's bounds is not written as part of it. Saving a picture that was just read from a file of the same format changes nothing more.",
 ["histories","inputs"],"every sequence of crops, saves and loads in either format, over every layer tree whose colours the formats hold",
 "Each test covers one save of one hand-made image; losses that show only after two steps (cropping, then saving; reading one format, then writing the other) need a history.",
 ["layer.go","image.go","ora/encode.go","ora/stack.go","xcf/encoder.go","xcf/layer_encode.go","xcf/layer_decode.go"],
 [("cropping of layers, groups, masks","layer.go SubImageLayer, crop"),("layers written within their bounds","ora/encode.go writeLayers; xcf/layer_encode.go WriteLayer")],
 ["SubImage, ora.Encode, ora.Decode, xcf.Encode, xcf.Decode, xcf.DecodeCompressed one after the other"])

p("C27","Pictures change only when stored to; sub-images are live, files are copies",
 "Nothing but storing pixels changes what a picture shows: looking at it, cropping it and saving it in either format, also several times at once, leave it and every other picture as they were. A sub-image keeps showing what is stored to the original afterwards, at every depth of cropping and nesting, while a picture read from a file never changes with the one it was saved from. Saving the same unchanged picture again in the same format gives the same bytes, also when several goroutines save it at once, and doing so is free of data races.",
 ["histories","schedules"],"every interleaving of stores, looks, crops and saves over any of the pictures made so far",
 "No test stores a pixel after cropping or saving, saves twice, or saves concurrently.",
 ["layer.go","image.go","ora/encode.go","xcf/encoder.go"],
 [("the root stack is moved to the origin in a copy","ora/encode.go toLayer"),("cropped images refer to the original's pixels","layer.go croppedImage")],
 ["SubImage, ora.Encode, xcf.Encode, Set, At"],
 state=[("pixels of a layer","shared between a picture and its sub-images","layer.go croppedImage")])

p("C28","Bounds, colour model and mode names tell what an image is",
 "The bounds of a layered image are the smallest rectangle around the bounds of all its layers, hidden ones included and layers without any size ignored, and after taking a sub-image they lie within the rectangle asked for; a layer lies where its layer bounds say, and masked images and texts have the bounds of what they hold. The colour model of a layered image is that of its first layer, at every depth, that of masked images, texts and sub-images the one of what they hold (palettes with their entries), and an empty image has the alpha model. Every mode with a name of its own gives exactly its published name and no two different modes share one, except that modes shown as Normal, and numbers that are no mode, may be called Normal.",
 ["inputs","histories"],"every layer tree and every sequence of sub-image calls; every mode number",
 "The tests never ask a tree for its bounds or model and print no mode.",
 ["image.go","layer.go","composite.go","misc.go"],
 [("union of bounds, model of the first layer","image.go Bounds, ColorModel"),("names","composite.go String")],
 ["limage.Image.Bounds","limage.Image.ColorModel","limage.Composite.String"])

p("C29","XCF files written are well formed throughout",
 "Whatever picture is encoded, the XCF file written can be followed by any reader of the format, not only by this package's own decoder: its header names a known version, every property has the form its kind demands and appears at most once in its list, the lists of layers, channels, levels and tiles are ended by a null pointer, hierarchies and levels state the size of their layer (groups included) or mask, tiles follow one another in order and are no longer than readers allow, and the layers of a group follow it with a path that leads to it. Every byte of the file belongs to exactly one of its parts: none is left unused or shared.",
 ["inputs"],"every layer tree, content kind, palette, mask and text that can be encoded",
 "The tests decode one written file with the package's own decoder, which ignores channels, level lists, group pictures and everything it skips; a file other programs reject would pass.",
 ["xcf/encoder.go","xcf/layer_encode.go","xcf/image_encode.go","xcf/channel.go","xcf/text.go","xcf/writer.go","xcf/rle.go"],
 [("layer, hierarchy, level and tile records","xcf/layer_encode.go writeLayer; xcf/image_encode.go WriteImage"),("pointer lists filled in afterwards","xcf/writer.go ReservePointerList"),("the list of channels","xcf/encoder.go Encode")],
 ["xcf.Encode"])

p("C30","XCF files that contradict themselves are refused",
 "Decoding, eager or deferred, refuses with an error every file that contradicts itself or states a value the format does not have: an unknown version or colour mode, a layer of another colour mode than the image, a hierarchy or level whose size or number of channels is not that of its layer or mask, a mask not of its layer's size, a tile list not ended after the last tile, a palette index outside the palette, a second group at the path of another, an unknown compression, a palette of more than 256 colours, an opacity above 255, a visibility, unit or other image property out of its range, an end of properties with content, a guide, sample point, item path or parasite length that cannot be, a layer or parasite name that is not terminated UTF-8. No image comes back wherever in the file, the layer tree or the pixels the contradiction lies. Reading only the configuration refuses unknown versions and colour modes and, for indexed files, such image properties.",
 ["inputs"],"every well-formed file of any version, mode and size with one or more such contradictions anywhere in it",
 "No test decodes a file that is complete but wrong.",
 ["xcf/decoder.go","xcf/layer_decode.go","xcf/image_decode.go","xcf/channel.go","xcf/parasites.go","xcf/props.go","xcf/reader.go"],
 [("consistency of sizes and channels","xcf/image_decode.go ReadImage, validBPP; xcf/layer_decode.go readMask"),("ranges of properties","xcf/decoder.go readImageProperties; xcf/layer_decode.go readProperties"),("palette indices","xcf/image_decode.go checkIndices"),("paths of groups","xcf/decoder.go makeGroups")],
 ["xcf.Decode","xcf.DecodeCompressed","xcf.DecodeConfig"])

open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
for x in P:
    assert len(x["title"])<=80,x["id"]
    n=x["statement"].count(". ")+1
    if n>3: print(x["id"],n)
